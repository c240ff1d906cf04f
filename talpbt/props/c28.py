"""Options that are left out have their documented defaults."""
import contextlib
from io import StringIO

from . import common
from ..core import Violation
from ..dummy import DummyGen
from ..engine import Engine
from ..gen import Opt
from ..harness import Case
from ..harness import diff_text
from ..harness import fits
from ..real import HTMLTALParser
from ..real import TALGenerator
from ..real import TALInterpreter
from ..real import TALParser
from ..real import attempt
from ..real import compile_template

from zope.tal.driver import interpretit
from zope.tal.dummyengine import DummyEngine
from zope.tal.taldefs import ZOPE_METAL_NS

ID = 'C28'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1000000}
RULE = ('a case is a template (HTML or XML: a generated macro library and '
        'page; an element whose attributes end near the default width; or a '
        'macro that uses itself) and a drawn value for each rendering option; '
        'a drawn subset of the options is left out, and the rendering must '
        'have the output, evaluations, translations and error of the '
        'rendering with the documented defaults given explicitly; tracing '
        'may be switched on and must add nothing but text on the error '
        'stream.  Or it is '
        'a template compiled and rendered without naming an expression '
        'engine, generator or output stream, or through the rendering '
        'function of the driver.  Non-trivial: leaving out an option could '
        'matter, that is, another value of it gives another result; distinct '
        'by sources, options and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}

DEFAULTS = {'wrap': 1023, 'metal': 1, 'tal': 1, 'showtal': -1,
            'strictinsert': 1, 'stackLimit': 100, 'i18nInterpolate': 1,
            'sourceAnnotations': 0, 'debug': 0}
OTHER = {'wrap': [0, 30, 1024, 1022], 'metal': [0], 'tal': [0],
         'showtal': [0, 1], 'strictinsert': [0],
         'stackLimit': [99, 101, 2], 'i18nInterpolate': [0],
         'sourceAnnotations': [1]}


def run(c, kw):
    program, macros = c.programs[-1]
    rt = c.runtime(c.rmacros)
    out = StringIO()
    err = StringIO()

    def go():
        with contextlib.redirect_stderr(err):
            TALInterpreter(program, macros, Engine(rt), out, **kw)()
    o = attempt(go)
    if bool(err.getvalue()) != bool(kw.get('debug')):
        raise Violation('written to the error stream: %r'
                        % err.getvalue()[:200])
    return out.getvalue(), o.error, rt.trace, rt.translations


def wide(src):
    """An element whose attributes end close to the default width."""
    s = src
    n = s.int(1, 3)
    left = 1023 + s.int(-3, 3) - len('<b')
    items = []
    for i in range(n):
        name = 'abc'[i]
        used = len(' %s=""' % name)
        size = left - used if i == n - 1 else s.int(0, 400)
        left -= used + size
        items.append('%s="%s"' % (name, 'x' * size))
    return ('<b %s tal:condition="str:1" z="tail"></b>' % ' '.join(items),)


def recursive(src):
    return ('<b metal:define-macro="m">x<i metal:use-macro="mac:m"></i></b>'
            '<i metal:use-macro="mac:m"></i>',)


class Fixed(Case):
    """Given sources."""

    def __init__(self, sources, html):
        if not html:
            sources = ['<root xmlns:tal="http://xml.zope.org/namespaces/tal" '
                       'xmlns:metal="%s">\n%s</root>' % (ZOPE_METAL_NS, t)
                       for t in sources]
        self.sources = list(sources)
        self.html = html
        self.data = []
        self.strict = 1
        self.interpolate = 1
        self.files = [None] * len(sources)
        self.markup = True
        self.variables = {}


def options(src, ctx):
    s = src
    kind = s.freq([(6, 'page'), (1, 'wide'), (1, 'recursive')])
    if kind == 'page':
        i18n = s.flag(.4)
        c = common.make(s, library=True, metal=True, i18n=i18n,
                        messages=i18n, files=True, maxel=9, p_dir=.7,
                        lenient=True, strict=0)
        if fits(c) is None:
            ctx.label('discarded: too large')
            return
    else:
        c = Fixed({'wide': wide, 'recursive': recursive}[kind](s),
                  not s.flag(.5))
    c.compile()
    c.show(ctx)
    drawn = {}
    for k in sorted(OTHER):
        if s.flag(.25):
            drawn[k] = s.choice(OTHER[k])
    omitted = s.sample(sorted(set(DEFAULTS) - set(drawn)), 1, 9, .7)
    explicit = dict(DEFAULTS)
    explicit.update(drawn)
    given = {k: v for k, v in explicit.items() if k not in omitted}
    ctx.show(given=given, omitted=omitted)
    want = run(c, explicit)
    got = run(c, given)
    compare(want, got)
    if kind == 'page' and s.flag(.15):
        # tracing goes to the error stream and changes nothing else
        ctx.label('debug')
        ctx.evals += 1
        compare(want, run(c, dict(explicit, debug=1)))
    ctx.label(kind)
    for k in omitted:
        if k in OTHER:
            ctx.evals += 1
            if run(c, dict(explicit, **{k: s.choice(OTHER[k])})) != want:
                ctx.label('matters: ' + k)
                ctx.nontrivial((c.sources, sorted(given.items()),
                                [repr(v) for v in c.data]),
                               {'sources': c.sources, 'given': given,
                                'output': got[0][:2000]})


def compare(want, got):
    if want[1] != got[1]:
        raise Violation('expected %r, got %r' % (want[1], got[1]))
    if want[0] != got[0]:
        raise Violation('output: ' + diff_text(want[0], got[0]))
    if want[2] != got[2]:
        raise Violation('evaluations: expected %r, got %r'
                        % (want[2], got[2]))
    if want[3] != got[3]:
        raise Violation('translations: expected %r, got %r'
                        % (want[3], got[3]))


def parts(src, ctx):
    """Compiler, engine and stream left out."""
    s = src
    html = not s.flag(.45)
    g = DummyGen(s, Opt(html=html, tal=True, i18n=s.flag(.3), structure=True,
                        lenient=True, attrs_expr=False, maxel=9))
    c = Case([g.document()], g, html)
    source = c.sources[0]
    route = s.choice(['parser', 'generator', 'stream', 'driver'])
    ctx.show(source=source, mode='html' if html else 'xml', left_out=route)
    ctx.label('left out: ' + route)

    def code(route):
        if route == 'parser':
            p = HTMLTALParser() if html else TALParser()
        elif route == 'generator':
            p = HTMLTALParser(TALGenerator(xml=0)) if html else \
                TALParser(TALGenerator())
        else:
            return compile_template(source, html, compiler=DummyEngine())
        p.parseString(source)
        return p.getCode()

    def explicit():
        program, macros = code(None)
        out = StringIO()
        TALInterpreter(program, macros, engine(macros), out,
                       **dict(DEFAULTS, **(
                           {'wrap': 0} if route == 'driver' else {})))()
        return out.getvalue()

    def engine(macros):
        return DummyEngine(macros)

    def implicit():
        program, macros = code(route)
        out = StringIO()
        if route == 'driver':
            if s.flag():
                interpretit((program, macros), None, out)
            else:
                with contextlib.redirect_stdout(out):
                    interpretit((program, macros))
        elif route == 'stream':
            with contextlib.redirect_stdout(out):
                TALInterpreter(program, macros, engine(macros))()
        else:
            TALInterpreter(program, macros, engine(macros), out)()
        return out.getvalue()

    if code(None) != code(route):
        raise Violation('compiled to %r, expected %r' % (
            code(route), code(None)))
    want = attempt(explicit)
    got = attempt(implicit)
    if want.error != got.error:
        raise Violation('expected %r, got %r' % (want, got))
    if want.text != got.text:
        raise Violation('output: ' + diff_text(want.text, got.text))
    ctx.nontrivial((source, route), {'source': source, 'left out': route})


def case(src, ctx):
    if src.flag(.2):
        parts(src, ctx)
    else:
        options(src, ctx)
