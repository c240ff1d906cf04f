"""Translation units request the right message and substitute its parts."""
from . import common
from ..harness import compare
from ..harness import fits

ID = 'C11'
LEVEL = 'exploration'
CASES = {'quick': 150000, 'thorough': 1500000}
RULE = ('a case is a generated template (HTML or XML) with translation '
        'units, named parts, domains and TAL statements (optionally macros '
        'and error handlers); output, evaluations and the full list of '
        'translation requests (id, domain, mapping, default) are compared '
        'with the reference model.  Non-trivial: at least one request; '
        'distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}


def case(src, ctx):
    lib = src.flag(.25)
    c = common.make(src, library=lib, metal=lib, extend=lib, i18n=True,
                    tal=not src.flag(.2), messages=src.flag(.3),
                    onerror=src.flag(.3), errors=src.flag(.3), pre=not lib,
                    maxel=14, p_dir=.75, interpolate=0 if src.flag(.1) else 1,
                    structure=src.flag(.3))
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    fault, m = common.failing(src, ctx, c, fits(c))
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    compare(c, mo, mrt, ro, rrt)
    if mrt.translations:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ro.text})
