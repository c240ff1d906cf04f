"""Any expression engine that implements the interface will do."""
from . import common
from ..core import Violation
from ..engine import DEFAULT
from ..engine import Boom
from ..engine import Compiler
from ..engine import Engine
from ..harness import check_runtime
from ..harness import compare
from ..harness import diff_text
from ..harness import fits
from ..real import PARSE_ERRORS
from ..real import TALError
from ..real import TALInterpreter
from ..real import attempt
from ..real import message
from ..tmpl import walk

ID = 'C31'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1200000}
RULE = ('a case is a generated template (or macro library and page) compiled '
        'and rendered twice: with the plain engine (and by the reference '
        'model), and with a compiler, '
        'engine, iterators, values and stream that offer the documented '
        'operations only and are otherwise as awkward as possible (false, '
        'without length, hash or comparison, equal to everything); output, '
        'errors, evaluations, positions and translations must be the same.  '
        'Or one expression does not compile: the announced error becomes a '
        'template error at the element, any other goes through unchanged.  '
        'Non-trivial: something was evaluated; distinct by sources, values '
        'and kind of engine')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'compiled expressions are neither None nor equal to the empty string',
    'iterators offer next() and __next__()',
]
PROBES = {}


class Agreeable:
    """Equal to everything, and false."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    __hash__ = None


class Value:
    """A value with text and truth, and nothing else."""

    def __init__(self, v):
        self.v = v

    def __str__(self):
        return str(self.v)

    def __bool__(self):
        return bool(self.v)

    def __eq__(self, other):
        raise AssertionError('values compared')

    __ne__ = __eq__
    __hash__ = None

    def __repr__(self):
        return repr(self.v)


class Same(Value):

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


# compiled expressions -------------------------------------------------------

class FalseForm:
    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return False


class EmptyForm(list):
    """Empty and without hash."""
    def __init__(self, expr):
        self.expr = expr


class OpenForm:
    """Can be called, entered and subscripted."""
    def __init__(self, expr):
        self.expr = expr

    def __call__(self, *args, **kw):
        raise AssertionError('a compiled expression was called')

    def __len__(self):
        raise AssertionError('a compiled expression was measured')

    __bool__ = __str__ = __iter__ = __getitem__ = __hash__ = __len__


FORMS = {
    'false': FalseForm,
    'empty': EmptyForm,
    'open': OpenForm,
    'tuple': lambda e: ('x', e),
    'text': lambda e: ' ' + e,
    'bytes': lambda e: b' ' + e.encode('utf-8', 'surrogatepass'),
}


def source(c):
    if type(c) is tuple:
        return c[1]
    if type(c) is str:
        return c[1:]
    if type(c) is bytes:
        return c[1:].decode('utf-8', 'surrogatepass')
    return c.expr


class Declared(Exception):
    """What the compiler announces."""


class Derived(Declared):
    def __str__(self):
        return 'derived'


class Odd:
    """ITALExpressionCompiler and no more."""

    def __init__(self, form, bad=None, exc=None):
        self._form = form
        self._bad = bad
        self._exc = exc
        self.asked = []

    def getCompilerError(self):
        return Declared

    def compile(self, expression):
        self.asked.append(expression)
        if expression == self._bad:
            raise self._exc
        return self._form(expression)

    def getContext(self, namespace):
        raise AssertionError('a context is made while compiling')

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    __hash__ = None


class Steps:
    """An iterator that says yes and no in other words."""

    def __init__(self, it, yes, no):
        self._it = it
        self._yes = yes
        self._no = no

    def next(self):
        return self._yes if self._it.next() else self._no

    __next__ = next

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Info(Agreeable):
    def __init__(self, info):
        self.type = info.type
        self.value = info.value
        self.lineno = info.lineno
        self.offset = info.offset


class Macro(list):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class OddEngine:
    """ITALExpressionEngine and no more."""

    def __init__(self, rt, default, yes, no):
        self._engine = Engine(rt)
        self._engine._x = source
        self._default = default
        self._yes = yes
        self._no = no

    def _out(self, v):
        return self._default if v is DEFAULT else v

    def _in(self, v):
        return DEFAULT if v is self._default else v

    def getDefault(self):
        return self._default

    def setPosition(self, position):
        self._engine.setPosition(position)

    def setSourceFile(self, filename):
        self._engine.setSourceFile(filename)

    def beginScope(self):
        self._engine.beginScope()

    def endScope(self):
        self._engine.endScope()

    def evaluate(self, compiled_expression):
        return self._out(self._engine.evaluate(compiled_expression))

    def evaluateValue(self, compiled_expression):
        return self._out(self._engine.evaluateValue(compiled_expression))

    def evaluateBoolean(self, compiled_expression):
        v = self._engine.evaluateBoolean(compiled_expression)
        if v is DEFAULT:
            return self._default
        return self._yes if v else self._no

    def evaluateMacro(self, compiled_expression):
        v = self._engine.evaluateMacro(compiled_expression)
        return Macro(v) if type(v) is list else self._out(v)

    def evaluateStructure(self, compiled_expression):
        return self._out(self._engine.evaluateStructure(compiled_expression))

    def evaluateText(self, compiled_expression):
        return self._out(self._engine.evaluateText(compiled_expression))

    def createErrorInfo(self, exception, position):
        return Info(self._engine.createErrorInfo(exception, position))

    def setGlobal(self, name, value):
        self._engine.setGlobal(name, self._in(value))

    def setLocal(self, name, value):
        self._engine.setLocal(name, self._in(value))

    def getValue(self, name, default=None):
        return self._out(self._engine.getValue(name, default))

    def setRepeat(self, name, compiled_expression):
        return Steps(self._engine.setRepeat(name, compiled_expression),
                     self._yes, self._no)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        return self._engine.translate(msgid, domain, mapping, default)

    def evaluateCode(self, lang, code):
        return self._engine.evaluateCode(lang, code)

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


class Pieces(list):
    """A stream that is false as long as nothing has been written."""

    def write(self, text):
        self.append(text)


class Buffer:
    """What text is captured in, in place of the usual kind."""

    def __init__(self):
        self._parts = []

    def write(self, text):
        self._parts.append(text)

    def getvalue(self):
        return ''.join(self._parts)

    def __bool__(self):
        return False


class Buffering(TALInterpreter):

    def StringIO(self):
        return Buffer()


class TrueDefault(Agreeable):
    def __bool__(self):
        return True

    def __len__(self):
        return 1


YES = [True, 1, 'yes', [0], (None,), object()]
NO = [False, 0, '', [], (), None, 0.0]


def wrapped(v, kind):
    """The value in a form that has text and truth only."""
    if type(v) in (list, tuple):
        return type(v)([wrapped(x, kind) for x in v])
    if v is None or v is DEFAULT or hasattr(v, 'nodes') \
            or hasattr(v, 'domain') or isinstance(v, dict):
        return v
    return kind(v)


def draw(cls, program, macros, engine, **kw):
    out = Pieces()
    cls(program, macros, engine, out, **kw)()
    return ''.join(out)


def case(src, ctx):
    lib = src.flag(.35)
    c = common.make(src, library=lib, metal=lib, extend=lib and src.flag(.3),
                    i18n=src.flag(.4), messages=src.flag(.3),
                    onerror=src.flag(.4), errors=src.flag(.3),
                    scripts=src.flag(.15), maxel=src.choice([6, 12]),
                    strict=0 if src.flag(.2) else 1, files=src.flag(.5))
    form = src.choice(sorted(FORMS))
    c.show(ctx)
    ctx.show(form=form)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    ctx.label('compiled to ' + form)
    if src.flag(.2):
        broken(src, ctx, c, FORMS[form])
        return
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    kind = src.choice([None, Value, Same])
    default = TrueDefault() if src.flag(.6) else object()
    engine = (default, src.choice(YES), src.choice(NO))
    kw = {'wrap': 0, 'strictinsert': c.strict}
    plain = True
    if src.flag(.1):
        plain = False
        kw.update(src.choice([{'tal': 0}, {'showtal': 1}, {'metal': 0},
                              {'sourceAnnotations': 1}]))
    ctx.show(values=kind and kind.__name__, yes=repr(engine[1]),
             no=repr(engine[2]), options=kw)
    po, prt = c.real(**kw)
    c.compile(Odd(FORMS[form]))
    program, macros = c.programs[-1]
    if kind:
        c.data = [wrapped(v, kind) for v in c.data]
    rt = c.runtime(c.rmacros)
    cls = src.choice([TALInterpreter, Buffering])
    o = attempt(draw, cls, program, macros, OddEngine(rt, *engine),
                **kw)
    if po.error is None and o.error is None and po.text != o.text:
        raise Violation('output: ' + diff_text(po.text, o.text))
    compare(c, po, prt, o, rt, positions=True)
    if plain:
        compare(c, *m, o, rt)
    check_runtime(rt, o.error is None)
    if rt.trace:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data], form,
                        kind and kind.__name__),
                       {'sources': c.sources, 'form': form, 'output': o.text})


def broken(src, ctx, c, form):
    """One of the expressions does not compile."""
    # which expressions there are
    probe = Odd(form)
    c.compile(probe)
    if not probe.asked:
        ctx.label('no expressions')
        return
    bad = src.choice(probe.asked)
    exc = src.choice([Declared(), Declared('reason'), Declared(7),
                      Declared('reason', 'other'), Derived(), Derived('x'),
                      Declared('100% {} é'), Boom('other'), Boom(),
                      BaseException('base')])
    ctx.show(expression=bad, error=repr(exc))
    try:
        c.compile(Odd(form, bad, exc))
    except BaseException as e:
        got = e
    else:
        raise Violation('an expression that does not compile is accepted')
    if not isinstance(exc, Declared):
        ctx.label('other error')
        if got is not exc:
            raise Violation('%r became %r' % (exc, got))
    else:
        ctx.label('announced error')
        if not isinstance(got, TALError):
            if isinstance(got, PARSE_ERRORS):
                raise Violation('%r became %r' % (exc, got))
            raise got
        text = message(got)
        if exc.args and str(exc.args[0]) not in text:
            raise Violation('%r is not mentioned in %r' % (exc, text))
        where = (got.lineno, got.offset)
        for d in c.docs:
            for e in walk(d):
                if e.pos == where and any(
                        bad in v or bad in v.replace(';;', ';')
                        for ns, k, v in e.items if v):
                    break
            else:
                continue
            break
        else:
            raise Violation('%r reported at %r, where there is no such '
                            'expression' % (bad, where))
    ctx.nontrivial((c.sources, bad, repr(exc)),
                   {'sources': c.sources, 'expression': bad,
                    'error': repr(exc)})
