"""Static HTML passes through compilation and rendering unchanged."""
from . import common
from ..core import Violation
from ..engine import Runtime
from ..harness import diff_text
from ..real import compile_template
from ..real import render
from ..static import StaticHTML

ID = 'C01'
LEVEL = 'exploration'
CASES = {'quick': 250000, 'thorough': 4000000}
RULE = ('a case is a properly nested HTML document without template markup '
        '(lists, tables, headings, void and self-closed elements, scripts, '
        'comments, declarations, processing instructions, marked sections, '
        'odd attribute spellings), built together with its canonical '
        'spelling; it is compiled and rendered with drawn options and the '
        'result compared, then rendered again.  Non-trivial: contains an '
        'element or other markup; distinct by source')
ASSUMPTIONS = [
    'Python 3.12 html.parser tokenises correctly',
    'excluded by construction (open findings): references without the final '
    'semicolon in text, and attribute values that contain a complete reference '
    'once decoded',
    'at most a few dozen elements, depth at most 10']
PROBES = {
    'escaped-entity': lambda: common.probe(
        ['<p title="a&amp;lt;b"></p>'], '<p title="a&lt;b"></p>'),
    'bare-ampersand': lambda: common.probe(
        ['<p>AT&T rocks</p>'], '<p>AT&T; rocks</p>'),
}


def options(src):
    """Rendering options, none of which matters without template markup."""
    kw = {}
    if src.flag(.5):
        kw['wrap'] = src.choice([0, 1, 20, 1023])
        kw['tal'] = src.draw(2)
        kw['metal'] = src.draw(2)
        kw['showtal'] = src.draw(3) - 1
        kw['strictinsert'] = src.draw(2)
        kw['i18nInterpolate'] = src.draw(2)
        kw['sourceAnnotations'] = src.draw(2)
        kw['stackLimit'] = src.choice([100, 0, 1])
    return kw


def case(src, ctx):
    g = StaticHTML(src, maxel=src.choice([6, 14, 30]))
    source, want = g.document()
    if src.flag(.01):
        ctx.label('long')
        pad = common.padding(src, len(source))
        source, want = pad + source, pad + want
    kw = options(src)
    ctx.show(source=source, options=kw)
    for k in g.kinds:
        ctx.label(k)
    rt = Runtime()
    program, macros = compile_template(source, True)
    got = render(program, macros, rt, **kw)
    if got != want:
        raise Violation(diff_text(want, got))
    if rt.trace or rt.translations:
        raise Violation('evaluated %r' % rt.trace)
    if macros:
        raise Violation('macros %r' % macros)
    program, macros = compile_template(got, True)
    again = render(program, macros, rt, **kw)
    if again != got:
        raise Violation('rendered again: ' + diff_text(got, again))
    if '<' in want:
        ctx.nontrivial(source, {'source': source, 'output': got})
