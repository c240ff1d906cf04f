"""Translated attributes and message values are translated exactly once."""
from . import common
from ..harness import compare
from ..harness import fits

ID = 'C12'
LEVEL = 'exploration'
CASES = {'quick': 150000, 'thorough': 1500000}
RULE = ('a case is a generated template (HTML or XML) with i18n:attributes, '
        'tal:attributes, content and structure insertions over plain and '
        'message values, interpolation on or off; output and the full list '
        'of translation requests are compared with the reference model.  '
        'Non-trivial: at least one request, or interpolation off; distinct '
        'by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}


def case(src, ctx):
    lib = src.flag(.15)
    c = common.make(src, library=lib, metal=lib, i18n=True, messages=True,
                    onerror=src.flag(.3), errors=src.flag(.2), maxel=8,
                    p_dir=.9, p_i18nattr=.5, interpolate=0 if src.flag(.15) else 1,
                    strict=0 if src.flag(.3) else 1)
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    fault, m = common.failing(src, ctx, c, fits(c))
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    compare(c, mo, mrt, ro, rrt)
    if mrt.translations or not c.interpolate:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ro.text})
