"""Macro use renders the macro with the page's slots."""
from . import common
from ..harness import compare
from ..harness import fits

ID = 'C09'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1000000}
RULE = ('a case is one or two macro documents and a page (HTML or XML) with '
        'macros, slots, uses and fillers mixed with TAL; output, evaluations '
        'and exceptions are compared with the reference model.  Non-trivial: '
        'a macro was looked up; distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}


def case(src, ctx):
    tal = not src.flag(.15)
    i18n = src.flag(.2)
    # many macros with few names of slots, and errors
    dense = src.flag(.2)
    c = common.make(src, library=True, metal=True, tal=tal, i18n=i18n,
                    onerror=dense or src.flag(.3),
                    errors=src.flag(.4 if dense else .2),
                    macros=4, maxel=24 if dense else 14,
                    maxdepth=7 if dense else 5,
                    p_use=.5 if dense else .3,
                    slotnames=2 if dense else 4, files=src.flag(.5),
                    structure=src.flag(.2), inline=src.flag(.4))
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real()
    compare(c, mo, mrt, ro, rrt)
    for _ in range(4 if dense else 1):
        fault, m = common.failing(src, ctx, c, (mo, mrt), .7)
        if fault and m:
            ctx.evals += 1
            compare(c, *m, *c.real(**fault))
    if any(k == 'macro' for k, e in mrt.trace):
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ro.text})
