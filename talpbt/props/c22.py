"""Message extraction finds exactly the translatable messages."""
import warnings
from io import StringIO

from . import common
from ..core import Violation
from ..engine import Runtime
from ..model import Model
from ..model import normalise
from ..real import compile_template

from zope.tal.dummyengine import DummyEngine
from zope.tal.talgettext import POEngine
from zope.tal.talgettext import POTALInterpreter

ID = 'C22'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1200000}
RULE = ('a case is one to three generated templates (HTML or XML) with '
        'translation units, translated attributes, domains, TAL and METAL '
        'statements, extracted one after the other into one catalogue; the '
        'catalogue (domains, ids, defaults, every place) and the number of '
        'warnings are compared with those derived from the reference model '
        'run with marked dynamic content.  Non-trivial: at least one '
        'message; distinct by sources')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'extraction runs with METAL processing off, as the extraction tools do',
    'no server-side scripts (extraction would execute them)',
]
PROBES = {}

DYNAMIC = '${DYNAMIC_CONTENT}'


class Extraction(Runtime):
    """What extraction evaluates: everything is dynamic, true, a loop of
    one."""

    def value(self, expr):
        return DYNAMIC

    def as_boolean(self, expr):
        self.tick('boolean', expr)
        return True

    def as_sequence(self, expr):
        self.tick('repeat', expr)
        return (0,)

    def as_value(self, expr):
        self.tick('value', expr)
        return DYNAMIC

    def translate(self, msgid, domain, mapping, default):
        self.tick('translate', str(msgid))
        if default is not None:
            default = normalise(default)
            if default == msgid:
                default = None
        self.translations.append((domain, str(msgid), default,
                                  (self.page, self.position)))
        return 'x'


class DataModel(Model):
    """i18n:data is dynamic and adds nothing."""

    def unit(self, el, msgid, kids):
        mapping = {}
        self.units.append(mapping)
        content = self.capture(self.nodes, kids)
        self.units.pop()
        self.at(el)
        if not msgid:
            msgid = content if self.html and self.name(el) == 'pre' \
                else normalise(content)
        self.w(self.translate(msgid, content, mapping))


def expected(cases):
    """[(domain, id, default, place)] in order."""
    out = []
    for c in cases:
        for prep, name in zip(c.preps, c.pages):
            rt = Extraction(c.data, {}, macros={})
            rt.limit = 1500
            rt.page = name
            DataModel(rt, c.html, metal=False).run(prep, name)
            out += rt.translations
    return out


def extract(cases):
    engine = POEngine()
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        for c in cases:
            for src, name in zip(c.sources, c.pages):
                program, macros = compile_template(
                    src, c.html, name if c.named else None, DummyEngine())
                engine.file = name
                POTALInterpreter(program, macros, engine, stream=StringIO(),
                                 metal=False)()
    return engine.catalog, [str(w.message) for w in log]


def case(src, ctx):
    cases = []
    n = src.freq([(5, 1), (2, 2), (1, 3)])
    for i in range(n):
        lib = src.flag(.25)
        c = common.make(src, library=lib, metal=lib, extend=lib, i18n=True,
                        tal=not src.flag(.2), onerror=src.flag(.3),
                        errors=src.flag(.3), pre=not lib, maxel=10,
                        p_dir=.75, files=True, structure=src.flag(.5))
        c.pages = ['d%d-%s' % (i, f) for f in c.files]
        c.named = src.flag(.6)
        cases.append(c)
        common.label_docs(ctx, c.docs)
        ctx.label('html' if c.html else 'xml')
    sources = [s for c in cases for s in c.sources]
    ctx.show(sources=sources, modes=[c.html for c in cases])
    want = expected(cases)
    catalog = {}
    first = {}
    warned = 0
    for domain, msgid, default, place in want:
        catalog.setdefault(domain, {}).setdefault(msgid, []).append(place)
        if (domain, msgid) not in first:
            first[domain, msgid] = default
        elif first[domain, msgid] != default:
            warned += 1
    got, log = extract(cases)
    plain = {d: {str(m): list(p) for m, p in ms.items()}
             for d, ms in got.items()}
    if plain != catalog:
        raise Violation('catalogue: expected %r\n     got %r'
                        % (catalog, plain))
    for d, ms in got.items():
        for m in ms:
            if m.default != first[d, str(m)]:
                raise Violation('default of %r in %r: expected %r, got %r' % (
                    str(m), d, first[d, str(m)], m.default))
    if len(log) != warned:
        raise Violation('expected %d warnings, got %r' % (warned, log))
    ctx.label('messages: %s' % (len(want) if len(want) < 3 else
                                '3-6' if len(want) < 7 else '7+'))
    if warned:
        ctx.label('conflicting defaults')
    if len(want) > len(first):
        ctx.label('several places')
    if any(DYNAMIC in w[1] for w in want):
        ctx.label('dynamic message')
    if want:
        ctx.nontrivial(sources, {'sources': sources,
                                 'messages': [list(w[:3]) for w in want]})
