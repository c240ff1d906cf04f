"""Invalid templates are refused with the right error and place."""
from xml.parsers.expat import ExpatError

from . import common
from ..core import Violation
from ..gen import Gen
from ..gen import Opt
from ..real import HTMLParseError
from ..real import I18NError
from ..real import METALError
from ..real import TALError
from ..real import compile_template
from ..real import message
from ..tmpl import El
from ..tmpl import Raw
from ..tmpl import serialise

from zope.tal.htmltalparser import EmptyTagError
from zope.tal.htmltalparser import NestingError
from zope.tal.htmltalparser import OpenTagError

ID = 'C15'
LEVEL = 'exploration'
CASES = {'quick': 120000, 'thorough': 2500000}
RULE = ('a case is a valid generated template (TAL, METAL, I18N, HTML or XML) '
        'into which one violation of one of about fifty rules is injected, on '
        'an existing or a new element anywhere in the tree where that rule '
        'applies.  Compiling must fail with the class of the rule and the '
        'line and column of the offending element; without the injection it '
        'must compile.  Non-trivial: always; distinct by rule and source')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'class per rule as in the documentation of the errors; a METAL statement '
    'without value may be a TAL or a METAL error',
    'for documents that are not well-formed XML only class and line are '
    'claimed']
PROBES = {}

MARK = '\x01'


class Spot:
    """A place for a violation: element and what surrounds it."""
    __slots__ = ('el', 'kids', 'index', 'inert', 'macro', 'unit', 'html',
                 'src', 'gen')

    @property
    def void(self):
        return self.el.close != 'full'

    def free(self, ns, *names):
        if not names:
            return not self.el.any_ns(ns)
        return not any(self.el.has(ns, n) for n in names)

    def alone(self):
        """No METAL in or below the element."""
        def none(el):
            return not el.any_ns('metal') and all(
                none(k) for k in el.kids if type(k) is El)
        return none(self.el)

    def fits(self):
        """Nothing about substitution or translation yet."""
        return self.free('tal', 'content', 'replace', 'omit-tag') \
            and self.free('i18n', 'translate', 'data')

    def put(self, ns, name, value):
        self.src.draw(2) and self.el.items.insert(0, (ns, name, value)) \
            or self.el.has(ns, name) or self.el.put(ns, name, value)
        return self.el


def spots(nodes, html, inert=False, macro=False, unit=False):
    """(child list, element or None, flags) for every place of a document."""
    yield nodes, None, inert, macro, unit
    for n in nodes:
        if type(n) is not El:
            continue
        yield nodes, n, inert, macro, unit
        i, m, u = inert, macro, unit
        if i and n.has('metal', 'fill-slot'):
            i = False
        if not i:
            if n.has('metal', 'define-macro'):
                m = True
            if n.has('metal', 'use-macro') or n.has('metal', 'extend-macro'):
                i = True
        if n.has('i18n', 'translate'):
            u = True
        if n.close == 'full':
            yield from spots(n.kids, html, i, m, u)


RULES = []


def rule(cls, need=None, weight=1, html=None):
    """Register a rule; need(spot) says where it can be broken."""
    def deco(fn):
        for _ in range(weight):
            RULES.append((fn, cls, need, html))
        return fn
    return deco


# --- TAL


@rule(TALError, lambda s: s.free('tal', 'content', 'replace')
      and s.free('i18n', 'translate'))
def content_and_replace(s):
    s.put('tal', 'content', 'str:a')
    return s.put('tal', 'replace', 'structure str:b')


@rule(TALError)
def unknown_tal(s):
    names = ['foo', 'contents', 'defines', 'on_error', 'translate',
             'use-macro', 'if', 'omit', 'x:y'[:1]]
    if not s.html:
        names.append('Content')
    return s.put('tal', s.src.choice(names), s.src.choice(['x', 'str:x']))


@rule(METALError)
def unknown_metal(s):
    return s.put('metal', s.src.choice(
        ['macro', 'foo', 'define', 'slot', 'fill', 'content', 'use_macro',
         'define-macros']), 'x')


@rule(I18NError)
def unknown_i18n(s):
    return s.put('i18n', s.src.choice(
        ['foo', 'domains', 'content', 'id', 'msgid', 'context']),
        s.src.choice(['x', '']))


@rule((TALError,), lambda s: True)
def empty_tal(s):
    keys = [k for k in ('define', 'condition', 'repeat', 'attributes',
                        'on-error', 'content', 'replace', 'script')
            if not s.el.has('tal', k)]
    if s.el.has('tal', 'content') or s.el.has('tal', 'replace'):
        keys = [k for k in keys if k not in ('content', 'replace')]
    if not keys:
        return unknown_tal(s)
    return s.put('tal', s.src.choice(keys),
                 None if s.html and s.src.flag(.3) else '')


@rule((TALError, METALError), lambda s: s.free('metal'))
def empty_metal(s):
    return s.put('metal', s.src.choice(
        ['define-macro', 'use-macro', 'extend-macro', 'define-slot',
         'fill-slot']), None if s.html and s.src.flag(.3) else '')


@rule(I18NError, lambda s: s.free('i18n'))
def empty_i18n(s):
    return s.put('i18n', s.src.choice(['attributes', 'data']), '')


@rule(TALError, lambda s: s.free('tal', 'define'))
def bad_define(s):
    return s.put('tal', 'define', s.src.choice(
        ['a', '1a str:x', 'é str:x', 'a str:x; b', '; a str:x', 'a.b str:x',
         '"x" y', 'a str:1; ; b str:2', '-a str:x', ' ', ';',
         'a str:1;;;b', 'a=str:x', 'a str:x; ;', 'a str:x;\n; ']))


@rule(TALError, lambda s: s.free('tal', 'repeat'))
def bad_repeat(s):
    return s.put('tal', 'repeat', s.src.choice(
        ['x', '1 data:0', 'a.b data:0', ' ', 'é nothing', '(a) nothing',
         '-x nothing', 'a,b nothing', 'data:0']))


@rule(TALError, lambda s: s.free('tal', 'attributes')
      and s.free('i18n', 'attributes'))
def bad_attributes(s):
    opts = ['x', 'class', 'a str:b; c', '; a str:b', ' ',
            'class str:a; class str:b', 'a str:x;b str:y;  a str:z', ';',
            'a str:x; ; b str:y', 'a str:x; ;', 'a str:x;\n; ']
    if s.html:
        opts.append('class str:a; CLASS str:b')
    return s.put('tal', 'attributes', s.src.choice(opts))


STATEMENTS = [('tal', 'define', 'a %s'), ('tal', 'define', 'a str:x; b %s'),
              ('tal', 'condition', '%s'), ('tal', 'repeat', 'a %s'),
              ('tal', 'content', '%s'), ('tal', 'content', 'structure %s'),
              ('tal', 'replace', '%s'), ('tal', 'attributes', 'title %s'),
              ('tal', 'on-error', '%s'), ('tal', 'omit-tag', '%s'),
              ('tal', 'on-error', 'structure %s'),
              ('tal', 'attributes', 'a str:x; title %s')]


@rule(TALError, lambda s: s.fits() and s.free('tal') and s.free('i18n')
      and not s.void, weight=3)
def bad_expression(s):
    ns, name, arg = s.src.choice(STATEMENTS)
    return s.put(ns, name, arg % 'bad!x')


@rule(TALError, lambda s: s.alone() and not s.inert)
def bad_macro_expression(s):
    return s.put('metal', 'use-macro', 'bad!x')


@rule(TALError, lambda s: s.fits() and not s.void)
def bad_data_expression(s):
    s.put('i18n', 'translate', 'msg')
    return s.put('i18n', 'data', 'bad!x')


@rule(TALError, html=True)
def duplicate_tal(s):
    k, v = s.src.choice([('define', 'a str:x'), ('condition', 'str:x'),
                         ('omit-tag', ''), ('repeat', 'a nothing'),
                         ('on-error', 'str:x')])
    s.el.put('tal', k, v)
    # twice, however often it was there
    s.el.put('tal', k.upper() if s.src.flag(.3) else k, v)
    return s.el


@rule(METALError, html=True)
def duplicate_metal(s):
    k = s.src.choice(['define-macro', 'use-macro', 'define-slot',
                      'fill-slot', 'extend-macro'])
    s.el.put('metal', k, 'a')
    s.el.put('metal', k, 'b')
    return s.el


@rule(I18NError, html=True)
def duplicate_i18n(s):
    k = s.src.choice(['translate', 'domain', 'name', 'attributes', 'data'])
    s.el.put('i18n', k, 'a')
    s.el.put('i18n', k, 'b')
    return s.el


@rule(TALError, html=True)
def void_content(s):
    el = El(s.src.choice(['img', 'br', 'input', 'hr', 'meta', 'link', 'col',
                          'base', 'param', 'area', 'frame']),
            [('tal', 'content', 'str:x')],
            close=s.src.choice(['void', 'self']))
    return insert(s, el)


# --- METAL


@rule(METALError, lambda s: s.free('metal'))
def extend_and_use(s):
    if s.src.flag(.5):
        s.put('metal', 'define-macro', 'newone')
    s.put('metal', 'extend-macro', 'mac:a')
    return s.put('metal', 'use-macro', 'mac:b')


@rule(METALError, lambda s: s.free('metal'))
def extend_without_define(s):
    return s.put('metal', 'extend-macro', 'mac:a')


@rule(METALError, lambda s: s.free('metal'))
def slot_with_macro(s):
    s.put('metal', s.src.choice(['define-macro', 'use-macro']), 'newone')
    return s.put('metal', s.src.choice(['define-slot', 'fill-slot']), 's')


@rule(METALError, lambda s: s.free('metal'))
def define_and_use(s):
    s.put('metal', 'define-macro', 'newone')
    return s.put('metal', 'use-macro', 'mac:a')


@rule(METALError, lambda s: s.free('metal') and not s.inert, weight=2)
def fill_outside_use(s):
    return s.put('metal', 'fill-slot', 's')


@rule(METALError, lambda s: s.free('metal') and not s.inert and not s.macro,
      weight=2)
def slot_outside_macro(s):
    return s.put('metal', 'define-slot', 's')


@rule(METALError, lambda s: not s.inert)
def duplicate_macro(s):
    a = El('b', [('metal', 'define-macro', 'newone')])
    b = El('i', [('metal', 'define-macro', s.src.choice(
        ['newone', ' newone', 'newone ']))])
    k = s.src.draw(3)
    if k == 0:
        insert(s, a)
        s.kids.insert(s.kids.index(a) + 1, b)
        return b
    if k == 1:
        b.kids.append(a)
        return insert(s, b)
    w = El('div', [], [a, Raw('x'), El('u', [], [b])])
    insert(s, w)
    return b


@rule(METALError, lambda s: s.free('metal') and not s.inert)
def bad_macro_name(s):
    return s.put('metal', 'define-macro', s.src.choice(BAD_NAMES))


BAD_NAMES = ['1x', 'a b', 'a.b', 'é', 'a/b', 'a:b', '-a', '$x', 'a;b', 'aé',
             ' ']


@rule(METALError, lambda s: s.free('metal') and not s.inert and s.macro)
def bad_slot_name(s):
    return s.put('metal', 'define-slot', s.src.choice(BAD_NAMES))


@rule(METALError, lambda s: s.alone() and s.inert)
def bad_fill_name(s):
    return s.put('metal', 'fill-slot', s.src.choice(BAD_NAMES))


@rule(METALError, lambda s: not s.inert)
def duplicate_fill(s):
    a = El('b', [('metal', 'fill-slot', 'zz')])
    b = El('i', [('metal', 'fill-slot', s.src.choice(['zz', ' zz ']))])
    if s.src.flag(.4):
        kids = [a, Raw('x'), El('u', [], [Raw('y'), b])]
    else:
        kids = [El('u', [], [a]), b]
    insert(s, El('div', [('metal', 'use-macro', 'default')], kids))
    return b


@rule(METALError, lambda s: not s.inert)
def nested_fill(s):
    a = El('b', [('metal', 'fill-slot', 'other')])
    b = El('i', [('metal', 'fill-slot', 'zz')], [Raw('x'), a])
    insert(s, El('div', [('metal', 'use-macro', 'default')], [b]))
    return a


# --- I18N


@rule(I18NError, lambda s: not s.unit and s.free('i18n', 'name'), weight=2)
def name_outside_unit(s):
    return s.put('i18n', 'name', 'n')


@rule(TALError, lambda s: s.unit and s.free('i18n', 'name'))
def bad_name(s):
    return s.put('i18n', 'name', s.src.choice(BAD_NAMES))


@rule(I18NError, lambda s: s.free('i18n', 'translate', 'data'))
def data_without_translate(s):
    if s.src.flag(.4) and s.free('tal', 'content', 'replace'):
        s.put('i18n', 'translate', '')
    return s.put('i18n', 'data', 'nothing')


@rule(I18NError, lambda s: s.fits() and not s.void)
def message_and_content(s):
    s.put('i18n', 'translate', 'msg')
    return s.put('tal', s.src.choice(['content', 'replace']), 'str:x')


@rule(I18NError, lambda s: s.fits() and not s.void)
def data_structure(s):
    s.put('i18n', 'translate', 'msg')
    return s.put('i18n', 'data', s.src.choice(
        ['structure nothing', ' structure  str:x']))


@rule(TALError, lambda s: s.free('i18n', 'attributes')
      and s.free('tal', 'attributes'))
def bad_i18n_attributes(s):
    opts = ['a b c', 'title; title', 'title x; title', 'title;alt;title y',
            'alt; title x y z', 'title mid;alt x y']
    if s.html:
        opts.append('title; TITLE')
    return s.put('i18n', 'attributes', s.src.choice(opts))


@rule(I18NError, lambda s: s.free('i18n', 'attributes')
      and s.free('tal', 'attributes'))
def attribute_with_message(s):
    s.put('tal', 'attributes', s.src.choice(
        ['title str:x', 'alt str:a; title str:b']))
    return s.put('i18n', 'attributes', s.src.choice(
        ['title msg', 'alt; title msg']))


# --- nesting, HTML


@rule(NestingError, html=True)
def stray_end(s):
    return insert(s, Raw(s.src.choice(
        [MARK + '</zz>', 'x<i>y' + MARK + '</zz></i>',
         '<q></q>' + MARK + '</q>'])))


@rule(EmptyTagError, html=True)
def void_end(s):
    t = s.src.choice(['br', 'img', 'input', 'hr', 'meta', 'link', 'col',
                      'base', 'param', 'area', 'frame', 'isindex',
                      'basefont'])
    return insert(s, Raw(s.src.choice(['<%s>' % t, '']) + MARK
                         + '</%s>' % s.src.choice([t, t.upper()])))


@rule(OpenTagError, html=True)
def heading_nesting(s):
    h = 'h%d' % s.src.int(1, 6)
    inner = s.src.choice(['h1', 'h4', 'div', 'p', 'ul', 'table', 'h6',
                          'blockquote', 'dl', 'ol', 'nav'])
    mid = s.src.choice(['', 'x', '<b>', '<i>y '])
    end = '</b>' if '<b>' in mid else '</i>' if '<i>' in mid else ''
    return insert(s, Raw(f'<{h}>{mid}{MARK}<{inner}>z</{inner}>{end}</{h}>'))


LOOSE = [('ul', 'li', 'li'), ('ol', 'li', 'li'), ('dl', 'dt', 'dd'),
         ('dl', 'dd', 'dd'), ('div', 'p', 'p'), ('div', 'p', 'div'),
         ('div', 'p', 'h2'), ('table', 'tr', 'tr'), ('div', 'p', 'ul')]


def loose(s, attr):
    outer, a, b = s.src.choice(LOOSE)
    start = f'{MARK}<{a} {attr}>'
    k = s.src.draw(3)
    if k == 0:
        t = f'<{outer}>{start}x<{b}>y</{b}></{outer}>'
    elif k == 1:
        t = f'<{outer}>{start}x</{outer}>'
    else:
        t = f'<{outer}>{start}<b>x<{b}>y</{b}></{outer}>'
        if b not in ('li', 'dd', 'tr', 'p', 'div', 'ul', 'h2'):
            raise AssertionError(b)
    return insert(s, Raw(t))


@rule(TALError, html=True)
def implied_end_tal(s):
    return loose(s, s.src.choice(
        ['tal:content="str:x"', 'tal:define="a str:x"', 'tal:omit-tag=""',
         'tal:condition="str:x"', 'i18n:domain="d"', 'i18n:translate=""',
         'tal:repeat="a nothing"', 'tal:attributes="title str:x"']))


@rule(METALError, lambda s: not s.inert, html=True)
def implied_end_metal(s):
    return loose(s, s.src.choice(
        ['metal:define-macro="newone"', 'metal:use-macro="mac:a"']
        + (['metal:define-slot="s"'] if s.macro else [])))


@rule(METALError, lambda s: s.inert, html=True)
def implied_end_fill(s):
    return loose(s, 'metal:fill-slot="zz9"')


@rule(TALError, lambda s: True, html=True)
def unclosed_at_end(s):
    return (s.gen.append(Raw(MARK + '<div tal:define="a str:x">y')), None)[1]


# --- XML


@rule(ExpatError, html=False)
def not_well_formed(s):
    return insert(s, Raw(s.src.choice(
        [MARK + '</zz>', '<b>' + MARK + '</i></b>', 'x ' + MARK + '& y',
         MARK + '<b x=1/>', MARK + '<b x="1" x="2"/>', MARK + '<nope:b/>',
         '<b ' + MARK + 'nope:x="1"/>', MARK + '<1/>', 'x' + MARK + '&nope;',
         MARK + '<b tal:content="str:a" tal:content="str:b"/>'])))


def insert(s, node):
    """Put a node somewhere among the siblings."""
    s.kids.insert(s.src.draw(len(s.kids) + 1), node)
    return node if type(node) is El else None


def case(src, ctx):
    html = not src.flag(.4)
    fn, cls, need, mode = src.choice(
        [r for r in RULES if r[3] is None or r[3] == html])
    metal = src.flag(.6)
    g = Gen(src, Opt(html=html, metal=metal, extend=metal and src.flag(.4),
                     i18n=src.flag(.6), onerror=src.flag(.3),
                     maxel=src.choice([4, 10, 16]), macros=2))
    doc = src.choice(g.library()) if metal else g.document()
    good = serialise(doc)
    file = src.choice([None, None, 'x.pt'])
    ctx.show(rule=fn.__name__, valid=good, mode='html' if html else 'xml')
    if file:
        ctx.show(file=file)
    compile_template(good, html, file)
    # places where the rule can be broken
    todo = []
    top = doc if html else doc[0].kids
    for kids, el, inert, macro, unit in spots(top, html):
        s = Spot()
        s.el, s.kids, s.inert, s.macro, s.unit = el, kids, inert, macro, unit
        s.html, s.src, s.gen = html, src, doc
        if el is None:
            s.el = El(src.choice(['b', 'div', 'span', 'a']))
        if need is None or need(s):
            todo.append((s, el is None))
    if not todo:
        ctx.label('no place for %s' % fn.__name__)
        return
    s, new = src.choice(todo)
    target = fn(s)
    if new and target is s.el:
        insert(s, s.el)
        if src.flag(.5):
            s.el.kids.append(Raw(src.choice(['x', '\n', '<i>y</i>'])))
    bad = serialise(doc)
    if MARK in bad:
        at = bad.index(MARK)
        bad = bad.replace(MARK, '')
        pos = (bad.count('\n', 0, at) + 1, at - (bad.rfind('\n', 0, at) + 1))
    else:
        pos = target.pos
    ctx.show(source=bad)
    ctx.label(fn.__name__)
    try:
        compile_template(bad, html, file)
    except (TALError, HTMLParseError, ExpatError) as e:
        text = message(e)
        if not isinstance(e, cls):
            raise Violation('%s: refused with %s (%s)'
                            % (fn.__name__, type(e).__name__, e))
        got = (e.lineno, e.offset)
        if cls is ExpatError:
            got, pos = got[0], pos[0]
        if got != pos:
            raise Violation('%s: reported at %r, the element is at %r (%s)'
                            % (fn.__name__, got, pos, e))
        if cls is not ExpatError and (
                'line %d' % pos[0] not in text
                or 'column %d' % (pos[1] + 1) not in text):
            raise Violation('%s: message %r does not name %r'
                            % (fn.__name__, text, pos))
    else:
        raise Violation('%s: accepted' % fn.__name__)
    ctx.nontrivial((fn.__name__, bad), {'rule': fn.__name__, 'source': bad,
                                        'error': text})
