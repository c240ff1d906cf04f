"""TAL statements obey their documented semantics and order."""
from . import common
from ..harness import compare
from ..harness import fits

ID = 'C04'
LEVEL = 'exploration'
CASES = {'quick': 150000, 'thorough': 1500000}
RULE = ('a case is a generated template (HTML or XML) with a table of '
        'expression values; output, exception and the full evaluation trace '
        'are compared with the reference model.  Non-trivial: at least two '
        'directives and at least one evaluation; distinct by template source '
        'and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}


def case(src, ctx):
    onerror = src.flag(.3)
    c = common.make(src, onerror=onerror, errors=onerror or src.flag(.15),
                    strict=0 if src.flag(.2) else 1,
                    scripts=src.flag(.1))
    c.show(ctx)
    n = common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    fault, m = common.failing(src, ctx, c, fits(c))
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    compare(c, mo, mrt, ro, rrt)
    if mo.error:
        ctx.label('unhandled error')
    if n >= 2 and mrt.ticks:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'source': c.sources[-1], 'output': ro.text})
