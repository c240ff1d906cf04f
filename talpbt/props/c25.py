"""Macro nesting is limited and foreign macros are refused."""
import sys
from io import StringIO

from . import common
from ..core import Violation
from ..engine import Engine
from ..engine import TooBig
from ..harness import check_runtime
from ..harness import diff_text
from ..model import EMPTY
from ..model import Foreign
from ..model import Model
from ..model import ModelForeign
from ..model import ModelLimit
from ..real import METALError
from ..real import TALInterpreter
from ..real import compile_template

from zope.tal import taldefs

ID = 'C25'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1000000}
RULE = ('a case is a generated page with macros that may use and extend each '
        'other in chains, trees and cycles, a nesting limit from 0 to 30, '
        'and possibly macros replaced by programs compiled for the other '
        'markup mode, another version or by no program at all; the outcome '
        '(error class, place of use, output written before the failure, '
        'evaluations) is compared with the reference model.  Non-trivial: '
        'two or more macros in use at once, the limit is reached or a '
        'foreign macro is used; distinct by sources, limit and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'the Python recursion limit leaves room for the configured nesting',
]
PROBES = {}


def foreign(src, html):
    """(description, program offered as a macro)"""
    kind = src.choice(['mode', 'mode', 'version', 'version', 'empty', 'noise'])
    ns = '' if not html else ' xmlns:metal="%s"' % taldefs.ZOPE_METAL_NS
    if kind == 'empty':
        return kind, []
    if kind == 'noise':
        v = ('version', taldefs.TAL_VERSION)
        m = ('mode', 'html' if html else 'xml')
        t = ('rawtext', ('foreign', 7))
        return kind, src.choice([
            [('x', 'y')], [t, t], [v], [m, v, t], [v, t], [v, t, m],
            [v, ('mode', 'sgml'), t], [v, m + ('x',), t], [v, ('mode',), t],
            [v, 'mode', t], ['version', m, t], [v + ('x',), m, t],
            [('Version', v[1]), m, t], [v, ('Mode', m[1]), t], [m, t],
            [('mode', v[1]), m, t], [v, ('version', m[1]), t], (), (v,)])
    text = '<b%s metal:define-macro="m">foreign</b>'
    if kind == 'mode':
        return kind, compile_template(text % ns, not html)[1]['m']
    p = compile_template(text % ('' if html else
                                 ' xmlns:metal="%s"' % taldefs.ZOPE_METAL_NS),
                         html)[1]['m']
    other = src.choice(['1.5', '1.7', '', None, '1.60'])
    return kind, [tuple(other if a == taldefs.TAL_VERSION else a for a in i)
                  for i in p]


def run_model(c, limit):
    rt = c.runtime(c.mmacros)
    rt.limit = 1200
    m = Model(rt, c.html, limit=limit)
    deepest = [0]
    use = m.macro_body

    def macro_body(el):
        deepest[0] = max(deepest[0], len(m.stack))
        use(el)
    m.macro_body = macro_body
    root = m.out
    error = None
    try:
        m.run(c.preps[-1], c.files[-1])
    except (TooBig, RecursionError):
        return None
    except BaseException as e:
        error = e
    return ''.join(root), error, rt, deepest[0]


def run_real(c, limit):
    rt = c.runtime(c.rmacros)
    out = StringIO()
    program, macros = c.programs[-1]
    error = None
    try:
        TALInterpreter(program, macros, Engine(rt), out, wrap=0,
                       stackLimit=limit)()
    except BaseException as e:
        error = e
    return out.getvalue(), error, rt


def case(src, ctx):
    s = src
    sys.setrecursionlimit(20000)
    limit = s.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 30])
    if s.flag(.03):
        limit = s.choice([100, 101, 150])
    c = common.make(s, library=True, metal=True, extend=s.flag(.6),
                    cycles=s.flag(.6), files=True, onerror=s.flag(.3),
                    tal=not s.flag(.3), i18n=s.flag(.1),
                    macros=4, maxel=8, p_dir=.8, structure=False,
                    edit=handler)
    c.compile()
    c.show(ctx)
    names = sorted(c.rmacros)
    strangers = []
    if names and s.flag(.4):
        for name in s.sample(names, 1, 2, .3):
            if s.flag(.2):
                # a whole document can be used as a macro
                strangers.append((name, 'empty document'))
                c.rmacros[name] = compile_template('', True)[0] if c.html \
                    else [('version', taldefs.TAL_VERSION), ('mode', 'xml')]
                c.mmacros[name] = EMPTY
                continue
            kind, program = foreign(s, c.html)
            strangers.append((name, kind))
            c.rmacros[name] = program
            c.mmacros[name] = Foreign()
    ctx.show(limit=limit, foreign=strangers)
    m = run_model(c, limit)
    if m is None:
        ctx.label('discarded: too large')
        return
    text, error, mrt, deepest = m
    got, gerror, rrt = run_real(c, limit)
    if type(error) in (ModelLimit, ModelForeign):
        if not isinstance(gerror, METALError):
            raise Violation('expected a METAL error, got %r' % (gerror,))
        if type(error) is ModelForeign and (
                gerror.lineno, gerror.offset) != error.args[0]:
            raise Violation('the use at %r was refused at %r' % (
                error.args[0], (gerror.lineno, gerror.offset)))
        ctx.label(type(error).__name__)
    elif (type(error), str(error)) != (type(gerror), str(gerror)):
        raise Violation('expected %r, got %r' % (error, gerror))
    if text != got:
        raise Violation('output: ' + diff_text(text, got))
    if mrt.trace != rrt.trace:
        raise Violation('evaluations: expected %r, got %r' % (
            mrt.trace, rrt.trace))
    check_runtime(rrt, gerror is None)
    ctx.label('depth %s' % (deepest if deepest < 4 else '4-7' if deepest < 8
                            else '8+'))
    if deepest > 1 or type(error) in (ModelLimit, ModelForeign):
        ctx.nontrivial((c.sources, limit, strangers,
                        [repr(v) for v in c.data]),
                       {'sources': c.sources, 'limit': limit,
                        'result': got if gerror is None else str(gerror)})


def handler(el):
    """Handlers do not show the error (its text is not specified)."""
    el.items = [(ns, k, 'str:failed' if (ns, k) == ('tal', 'on-error')
                 else v) for ns, k, v in el.items]
