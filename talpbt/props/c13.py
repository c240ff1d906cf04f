"""Structure insertion inserts markup verbatim and never executes it."""
from . import common
from ..core import Violation
from ..engine import DEFAULT
from ..gen import Cx
from ..gen import Gen
from ..gen import HTML_TAGS
from ..gen import Opt
from ..gen import XMLNS
from ..gen import XML_TAGS
from ..harness import Case
from ..harness import compare
from ..harness import fits
from ..model import Frag
from ..model import StrFrag
from ..real import PARSE_ERRORS
from ..tmpl import El
from ..tmpl import Raw
from ..tmpl import serialise
from ..tmpl import walk

ID = 'C13'
LEVEL = 'exploration'
CASES = {'quick': 200000, 'thorough': 1200000}
RULE = ('a case is a template with one to three insertion points (content, '
        'replace with and without tal:attributes, on-error, in loops) whose '
        'structure values are generated fragments, some carrying template '
        'directives, some malformed; strict or lenient, HTML or XML.  Output '
        'and evaluations are compared with the reference model; a malformed '
        'value must be refused when parsed and copied verbatim otherwise.  '
        'Non-trivial: the value contains markup; distinct by source and value')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'malformed means: a stray or crossing end tag, and in XML also an '
    'unclosed element, a bare < or & or an unquoted attribute (unclosed HTML '
    'elements are closed at the end of the value)']
PROBES = {}


def damage(src, html, text):
    """Make a well-formed fragment malformed."""
    kinds = ['close', 'cross']
    if not html:
        kinds += ['open', 'amp', 'lt', 'unquoted']
    k = src.choice(kinds)
    tag = src.choice(['div', 'b', 'span'])
    bad = {'open': '<%s>' % tag, 'close': '</%s>' % tag,
           'cross': '<%s><i></%s></i>' % (tag, tag),
           'amp': ' & ', 'lt': ' < ', 'unquoted': '<b x=1/>'}[k]
    return text + bad if src.flag(.5) else bad + text


class Bad(StrFrag):
    """Malformed; nodes is not its tree."""


def case(src, ctx):
    html = not src.flag(.45)
    g = Gen(src, Opt(html=html, fragdirs=not src.flag(.3), errors=False,
                     structure=True, attrs_expr=False))
    strict = 0 if src.flag(.4) else 1
    g.bad = 0

    def value():
        f = fragment(src, g)
        if src.flag(.2):
            # inserting it must fail, unless it is copied verbatim
            g.bad += 1
            return Bad(f.nodes, damage(src, html, f.src))
        return f

    seen = []

    def point():
        tag = src.choice(HTML_TAGS if html else XML_TAGS)
        el = El(tag)
        g.static_items(el)
        if seen and src.flag(.3):
            # the same value once more
            e = src.choice(seen)
        else:
            v = value() if not src.flag(.08) else src.choice(
                [None, DEFAULT, 42, '', 0, False, 0.0])
            e = 'structure ' + g.add(v)
            seen.append(e)
        k = src.draw(5)
        if k < 2:
            el.put('tal', 'content', e)
        elif k < 4:
            el.put('tal', 'replace', e)
            if src.flag(.6):
                el.put('tal', 'attributes', g.a_attributes(el))
        else:
            el.put('tal', 'content', 'err:0')
            el.put('tal', 'on-error', e)
        if src.flag(.2):
            el.put('tal', 'repeat', 'item ' + g.add([1, 2]))
        if src.flag(.1):
            el.put('tal', 'define', 'a str:A')
        if src.flag(.15):
            el.put('tal', 'omit-tag', '') if k < 2 else None
        if src.flag(.1) and k < 4:
            el.put('i18n', 'translate', '')
        g.shuffle(el)
        if src.flag(.4):
            el.kids.append(Raw('dflt'))
        return el

    nodes = src.many(point, 1, 3, .35)
    if src.flag(.3):
        nodes = [El('div', [('tal', 'define', 'x str:X')], nodes)]
    docs = [g.wrap(nodes)]
    c = Case(docs, g, html, strict=strict)
    c.show(ctx)
    ctx.show(values=[v.src if isinstance(v, Frag) else repr(v)
                     for v in g.data])
    ctx.label('html' if html else 'xml')
    ctx.label('strict' if strict else 'lenient')
    frags = [v for v in g.data if isinstance(v, Frag)]
    if not g.bad:
        fault, m = common.failing(src, ctx, c, fits(c))
        mo, mrt = m
        ro, rrt = c.real(**fault)
        compare(c, mo, mrt, ro, rrt)
        ctx.label('well-formed')
    else:
        # the model stops at the first malformed value that is parsed
        m = BadModelRun(c)
        ro, rrt = c.real()
        if m.refused:
            ctx.label('malformed, parsed')
            if ro.error is None:
                raise Violation('a malformed structure value was inserted: %r'
                                % ro.text)
            if ro.error[0] not in REFUSALS:
                raise Violation('malformed structure: %r' % ro)
        else:
            ctx.label('malformed, verbatim')
            compare(c, m.outcome, m.rt, ro, rrt)
    if any('<' in f.src for f in frags):
        ctx.nontrivial((c.sources, [str(v) for v in c.data], strict),
                       {'source': c.sources[-1], 'values': [
                           f.src for f in frags], 'output': ro.text})


REFUSALS = {n for cls in PARSE_ERRORS for n in [cls.__name__]}
for cls in PARSE_ERRORS:
    todo = [cls]
    while todo:
        k = todo.pop()
        REFUSALS.add(k.__name__)
        todo += k.__subclasses__()


class Refused(Exception):
    pass


class BadModelRun:
    """The model, stopping where a malformed value has to be parsed."""

    def __init__(self, c):
        from ..model import Model
        from ..real import attempt
        run = self
        self.refused = False
        self.rt = c.runtime(c.mmacros)
        self.rt.limit = 1500

        class M(Model):
            def frag(self, nodes, first):
                if getattr(self, '_bad', None):
                    self._bad = False
                    run.refused = True
                    raise Refused()
                Model.frag(self, nodes, first)

            def structure(self, expr, kids, translated, repl):
                v = self.rt.value(expr)
                self._bad = isinstance(v, Bad)
                Model.structure(self, expr, kids, translated, repl)
                self._bad = False

        self.outcome = attempt(
            M(self.rt, c.html, c.strict).run, c.preps[-1], None)


METAL = [('use-macro', 'mac:m'), ('use-macro', 'default'),
         ('define-macro', 'm'), ('define-slot', 's'), ('fill-slot', 's'),
         ('extend-macro', 'mac:m')]


def fragment(src, g):
    """A structure value with its tree."""
    html = g.o.html
    d = g.o.fragdirs
    fg = Gen(src, Opt(html=html, tal=d, i18n=d, maxel=4, maxdepth=3,
                      p_dir=.5, structure=False, multiline=html, ws=html,
                      metal=False))
    nodes = fg.nodes(0, Cx(unit=True), 1)
    for n in walk(nodes):
        n.bare = False
        if d and src.flag(.2):
            n.put('metal', *src.choice(METAL))
    if src.flag(.1):
        nodes.append(Raw(src.choice([']', '\r', ']]', '\r\n'])))
    for n in nodes:
        if type(n) is El and not html and d:
            n.items[:0] = XMLNS
    return (Frag if src.flag(.3) else StrFrag)(nodes, serialise(nodes))
