"""Output is written in document order, up to the point of a failure."""
from . import common
from ..core import Violation
from ..engine import ERRORS
from ..engine import Engine
from ..engine import TooBig
from ..harness import diff_text
from ..model import Model
from ..real import TALInterpreter

ID = 'C29'
LEVEL = 'fault_enumeration'
CASES = {'quick': 40000, 'thorough': 600000}
RULE = ('a case is a generated template (HTML or XML, optionally with '
        'macros, translation, error handlers, wrapping, annotations) '
        'rendered to a stream that has nothing but a write method, once '
        'without and then with every single evaluation, iteration step, '
        'translation or macro lookup (at most 12, then a spread sample) '
        'failing.  Only text may be written; after an unhandled failure the '
        'text written must be a beginning of the full output and contain at '
        'least everything the reference model has produced when it fails at '
        'the same step.  Each rendering is one evaluation of the rule.  '
        'Non-trivial: an unhandled failure after some output; distinct by '
        'sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'an element with an error handler, a translation unit and inline code '
    'may be written as a whole when complete']
PROBES = {}
MAXFAULTS = 12


class Stream:
    """Accepts text only."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise Violation('%r was written to the stream' % (s,))
        self.parts.append(s)

    def text(self):
        return ''.join(self.parts)


def run_model(c, fault_at, cls):
    rt = c.runtime(c.mmacros, fault_at, cls)
    rt.limit = 1500
    m = Model(rt, c.html, c.strict)
    root = m.out
    try:
        m.run(c.preps[-1], c.files[-1])
    except (TooBig, RecursionError):
        return None
    except BaseException as e:
        return ''.join(root), e, rt
    return ''.join(root), None, rt


def run_real(c, fault_at, cls, **kw):
    rt = c.runtime(c.rmacros, fault_at, cls)
    out = Stream()
    program, macros = c.programs[-1]
    try:
        TALInterpreter(program, macros, Engine(rt), out, **kw)()
    except Violation:
        raise
    except BaseException as e:
        return out.text(), e, rt
    return out.text(), None, rt


def case(src, ctx):
    lib = src.flag(.45)
    i18n = src.flag(.4)
    c = common.make(src, library=lib, metal=lib, extend=lib, i18n=i18n,
                    messages=i18n, onerror=src.flag(.4), files=True,
                    maxel=10, p_dir=.75, scripts=src.flag(.2),
                    inline=src.flag(.2))
    kw = {'wrap': 0}
    if src.flag(.3):
        kw = {'wrap': src.choice([0, 20, 1023]),
              'sourceAnnotations': src.draw(2)}
    c.show(ctx)
    ctx.show(options=kw)
    c.compile()
    m = run_model(c, None, None)
    if m is None:
        ctx.label('discarded: too large')
        return
    full, error, rt = run_real(c, None, ERRORS[0], **kw)
    if error is not None:
        ctx.label('fails by itself')
        return
    plain = kw == {'wrap': 0}
    n = m[2].ticks
    points = range(n) if n <= MAXFAULTS else \
        [i * n // MAXFAULTS for i in range(MAXFAULTS)]
    cut = 0
    for k in points:
        cls = src.choice(ERRORS)
        m = run_model(c, k, cls)
        if m is None:
            continue
        text, merror, mrt = m
        ctx.evals += 1
        ctx.show(fault_at=k, fault_class=cls.__name__)
        got, gerror, rrt = run_real(c, k, cls, **kw)
        if (type(merror), str(merror)) != (type(gerror), str(gerror)):
            raise Violation('expected %r, got %r' % (merror, gerror))
        if merror is None:
            ctx.label('handled')
            continue
        ctx.label('unhandled')
        if not full.startswith(got):
            raise Violation('after a failure at step %d: ' % k
                            + diff_text(full, got))
        if plain and not got.startswith(text):
            raise Violation('after a failure at step %d, of what was due: '
                            % k + diff_text(text, got))
        cut += bool(got)
    if cut:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data], sorted(
            kw.items())), {'sources': c.sources, 'written': got})
