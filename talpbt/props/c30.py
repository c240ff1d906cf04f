"""Showing the directives changes nothing else."""
import re

from . import common
from .c03 import minimise
from ..core import Violation
from ..harness import compare
from ..harness import fits

ID = 'C30'
LEVEL = 'exploration'
CASES = {'quick': 100000, 'thorough': 1500000}
RULE = ('a case is a generated template (or macro library and page) with '
        'TAL, I18N and METAL directives rendered with processing on and '
        'directives shown, optionally with METAL off; output, evaluations '
        'and translation requests are compared with the reference model, '
        'which writes the directives of an element into each of its start '
        'tags (METAL directives are compared only when METAL is off or '
        'nothing is a macro, since uses of macros rewrite them; a library '
        'and page without TAL must give what expanding macros gives).  '
        'Non-trivial: a start tag with directives is in the output; distinct '
        'by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}

METAL = r' %s:[a-zA-Z0-9-]+="[^"]*"'
ALL = ('tal', 'metal', 'i18n', 'xmlns')


def named(el):
    """METAL directives can be told by their prefix."""
    if el.nstag == 'metal':
        el.bare = False


def case(src, ctx):
    lib = src.flag(.35)
    metal = not (lib and src.flag(.4))
    pure = lib and metal and src.flag(.3)
    frag = not pure and src.flag(.4)
    c = common.make(src, library=lib, metal=lib, extend=lib and src.flag(.3),
                    tal=not pure, i18n=not pure and src.flag(.4), onerror=not pure and src.flag(.4),
                    errors=src.flag(.3), messages=src.flag(.2),
                    scripts=not pure and src.flag(.15), maxel=src.choice([6, 14]),
                    structure=frag, fragdirs=src.flag(.5),
                    rename=0 if frag else .05,
                    strict=0 if src.flag(.2) else 1, edit=named,
                    inline=lib and src.flag(.3),
                    attrs_expr=not pure)
    c.show(ctx)
    ctx.show(metal=metal)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    ctx.label('METAL off' if not metal else 'macros' if lib else 'no macros')
    show = ALL if not (lib and metal) else ('tal', 'i18n', 'xmlns')
    m = fits(c, show=show, metal=metal)
    fault, m = common.failing(src, ctx, c, m, show=show, metal=metal)
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(showtal=1, metal=1 if metal else 0, **fault)
    ctx.show(output=ro.text)
    shown = ro.text
    if pure:
        # nothing but macros: expanding them is all there is to do
        eo, ert = c.real(tal=0, showtal=1)
        if (eo.text, eo.error) != (ro.text, ro.error):
            raise Violation('macros expanded: %r, rendered: %r' % (eo, ro))
    for o, rt in ((mo, mrt), (ro, rrt)):
        canonical(o, rt, lib and metal and c.prefixes['metal'], c.html)
    compare(c, mo, mrt, ro, rrt)
    if shown and re.search(r'<[^<>]* (%s):' % '|'.join(
            re.escape(p) for p in c.prefixes.values()), shown):
        ctx.nontrivial((c.sources, [repr(v) for v in c.data], metal),
                       {'sources': c.sources, 'output': shown})


def canonical(o, rt, strip, html):
    """Without METAL directives, with one spelling of empty elements; in
    messages as well."""
    def plain(x):
        if isinstance(x, str):
            if strip:
                x = re.sub(METAL % re.escape(strip), '', x)
            return x if html else minimise(x)
        if isinstance(x, tuple):
            return tuple(plain(y) for y in x)
        return x
    o.text = plain(o.text)
    rt.trace = [plain(x) for x in rt.trace]
    rt.translations = [plain(x) for x in rt.translations]
