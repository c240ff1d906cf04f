"""Every evaluation is attributed to its source file and position."""
from . import common
from ..harness import compare
from ..harness import fits
from ..tmpl import walk


def nofile():
    """Without a file name, is a filler expression still reported at the
    position of the slot?"""
    from ..engine import Runtime
    from ..real import compile_template
    from ..real import render
    program, macros = compile_template(
        '<b metal:define-macro="m">\n<i metal:define-slot="s">d</i></b>\n'
        '<z metal:use-macro="mac:m"><a metal:fill-slot="s" '
        'tal:content="var:a">page</a></z>', True)
    rt = Runtime([], {'a': 'A'}, macros=macros)
    render(program, macros, rt)
    return rt.where[-1] == (None, (2, 0))


ID = 'C17'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1000000}
RULE = ('a case is macro documents and a page, each with a file name (HTML '
        'or XML, TAL, METAL, I18N, error handlers); file and position known '
        'to the engine at every evaluation are compared with the element '
        'that carries the expression; with error handlers also when one of '
        'the evaluations fails, three times.  Non-trivial: three evaluations; '
        'distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {
    'no-file-name': nofile,
}


def case(src, ctx):
    lib = not src.flag(.2)
    i18n = src.flag(.4)
    c = common.make(src, library=lib, metal=lib, extend=lib, i18n=i18n,
                    messages=i18n, onerror=src.flag(.6), errors=src.flag(.6),
                    files=True, maxel=14, inline=src.flag(.3),
                    scripts=src.flag(.2))
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real()
    compare(c, mo, mrt, ro, rrt, positions=True)
    guarded = any(e.has('tal', 'on-error') for d in c.docs for e in walk(d))
    for _ in range(3 if guarded and mrt.ticks else 0):
        k = src.draw(mrt.ticks)
        ctx.show(fault=k)
        m = fits(c, fault_at=k)
        if m is None:
            continue
        ctx.evals += 1
        ctx.label('with a fault')
        compare(c, *m, *c.real(fault_at=k), positions=True)
    if mrt.ticks > 2:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ro.text})
