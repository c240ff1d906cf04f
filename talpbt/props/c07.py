"""Variables are visible exactly in their scope."""
from . import common
from ..core import Violation
from ..engine import Runtime
from ..gen import ODD_VARS
from ..gen import VARS
from ..harness import compare
from ..harness import fits

ID = 'C07'
LEVEL = 'exploration'
CASES = {'quick': 120000, 'thorough': 1200000}
RULE = ('a case is a generated template (HTML or XML, with macros, '
        'translations and error handlers) rich in definitions and loops over '
        'five variable names; besides output and trace, the value of every '
        'variable, of attrs and of error at every single evaluation is '
        'compared with the reference model, and scopes must be balanced at '
        'the end.  Non-trivial: a definition or loop and three evaluations; '
        'distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}

NAMES = tuple(VARS) + ('attrs',) + tuple(
    v for v in ODD_VARS if v not in VARS)
ATTRS = NAMES.index('attrs')


class SnapRuntime(Runtime):
    """Notes all variables at every evaluation."""

    def __init__(self, *args):
        Runtime.__init__(self, *args)
        self.snaps = []

    def tick(self, kind, expr):
        snap = [repr(self.lookup(n)) for n in NAMES]
        e = self.lookup('error')
        snap.append(e if isinstance(e, str) else
                    (e.type.__name__, str(e.value), e.lineno, e.offset))
        name = self.lookup('macroname')
        snap.append(None if name == '?macroname' else name)
        self.snaps.append(snap)
        Runtime.tick(self, kind, expr)


def case(src, ctx):
    lib = src.flag(.4)
    i18n = src.flag(.3)
    c = common.make(src, library=lib, metal=lib, extend=lib, i18n=i18n,
                    messages=i18n, onerror=src.flag(.5), errors=src.flag(.5),
                    p_dir=.8, structure=src.flag(.2), files=True,
                    scripts=src.flag(.15), inline=src.flag(.2))
    c.runtime_class = SnapRuntime
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    fault, m = common.failing(src, ctx, c, fits(c))
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    for i, (a, b) in enumerate(zip(mrt.snaps, rrt.snaps)):
        if mrt.trace[i] != rrt.trace[i]:
            break
        if a[ATTRS] == 'UNSPECIFIED':
            b[ATTRS] = a[ATTRS]
        if a != b:
            j = [x == y for x, y in zip(a, b)].index(False)
            raise Violation('at evaluation %d (%r) variable %s: expected %s, '
                            'got %s' % (i, rrt.trace[i],
                                        (NAMES + ('error', 'macroname'))[j], a[j], b[j]))
    compare(c, mo, mrt, ro, rrt)
    if mo.error is None:
        for name in NAMES:
            if mrt.lookup(name) is not rrt.lookup(name) \
                    and mrt.lookup(name) != rrt.lookup(name):
                raise Violation('variable %s after the rendering: expected '
                                '%r, got %r' % (name, mrt.lookup(name),
                                                rrt.lookup(name)))
    k = common.kinds(c.docs)
    if ('tal:define' in k or 'tal:repeat' in k) and mrt.ticks > 2:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'source': c.sources[-1], 'output': ro.text})
