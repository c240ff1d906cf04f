"""A handled error leaves no trace but the handler output."""
from . import common
from ..core import Violation
from ..engine import ERRORS
from ..harness import compare
from ..harness import fits
from ..tmpl import walk

ID = 'C08'
LEVEL = 'fault_enumeration'
CASES = {'quick': 40000, 'thorough': 250000}
RULE = ('a case is a generated template with error handlers (HTML or XML, '
        'optionally macros and translation); it is rendered once without and '
        'then once for every single evaluation, iteration step, translation, '
        'macro lookup or structure evaluation (at most 40, then a spread '
        'sample) failing with a drawn exception class, and output, exception '
        'and evaluations are compared with the reference model.  Each '
        'rendering is one evaluation of the rule.  Non-trivial: a handler '
        'actually ran in some rendering; distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'KeyboardInterrupt and MemoryError are not injected']
PROBES = {}
MAXFAULTS = 40


def case(src, ctx):
    lib = src.flag(.45)
    i18n = src.flag(.4)
    c = common.make(src, library=lib, metal=lib, extend=lib, i18n=i18n,
                    messages=i18n, onerror=True, errors=src.flag(.3),
                    files=True, maxel=10, p_dir=.75, scripts=src.flag(.2),
                    inline=src.flag(.2))
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    handlers = sum(1 for d in c.docs for e in walk(d)
                   if e.has('tal', 'on-error'))
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real()
    compare(c, mo, mrt, ro, rrt)
    if not handlers:
        ctx.label('no handler')
    n = mrt.ticks
    points = range(n) if n <= MAXFAULTS else \
        [i * n // MAXFAULTS for i in range(MAXFAULTS)]
    handled = 0
    for k in points:
        cls = src.choice(ERRORS)
        m = fits(c, fault_at=k, fault_class=cls)
        if m is None:
            continue
        mo, mrt = m
        ctx.evals += 1
        ctx.show(fault_at=k, fault_class=cls.__name__)
        ro, rrt = c.real(fault_at=k, fault_class=cls)
        compare(c, mo, mrt, ro, rrt)
        ctx.label('fault in ' + (mrt.fault_kind or '-'))
        if mo.error is None:
            handled += 1
            ctx.label('handled')
        else:
            ctx.label('propagated')
            if mo.error[0] != cls.__name__ and 'injected' in mo.error[1]:
                raise Violation('exception class changed')
    if handled:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'source': c.sources[-1], 'faults': len(points),
                        'handled': handled})
