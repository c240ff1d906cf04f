"""With template processing off, templates come back with their directives."""
import re

from . import common
from ..core import Violation
from ..harness import check_runtime
from ..harness import diff_text
from ..harness import fits
from ..real import attempt
from ..real import compile_template
from ..real import render
from ..tmpl import DEFAULT_PREFIXES
from ..tmpl import Raw
from ..tmpl import esc_attr
from ..tmpl import item_name
from ..tmpl import qname

ID = 'C03'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1500000}
RULE = ('a case is a generated template (or macro library and page) with TAL, '
        'METAL and I18N directives; it is rendered with processing off, with '
        'directives shown and hidden, and compared with the canonical '
        'spelling of its tree; the reproduced source is compiled and rendered '
        'normally and compared with the normal rendering of the original.  '
        'Non-trivial: has directives; distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'templates without server-side script elements (open finding)']
PROBES = {
    'server-script': lambda: common.probe(
        ['<script type="text/server-x" class="a">y</script>'],
        '<script class="a">y</script>', tal=0, metal=0),
}


_empty = re.compile(r'<([^\s<>/]+)([^<>]*?)(?<!/)></\1>')


def minimise(s):
    """One spelling for empty XML elements."""
    return _empty.sub(r'<\1\2/>', s)


def canon(nodes, html, show, prefixes=None):
    """The canonical spelling of a template, with or without directives."""
    prefixes = prefixes or DEFAULT_PREFIXES
    out = []
    for n in nodes:
        if type(n) is Raw:
            out.append(n.text)
            continue
        kids = canon(n.kids, html, show, prefixes)
        if n.nstag and not show:
            out.append(kids)
            continue
        name = qname(n, prefixes)
        if html:
            name = name.lower()
        out.append('<' + name)
        items = n.items
        if not html:
            # the parser reports namespace declarations first
            items = ([i for i in items if i[0] == 'xmlns']
                     + [i for i in items if i[0] != 'xmlns'])
        for ns, k, v in items:
            if ns and not show:
                continue
            k = item_name(n, ns, k, prefixes)
            if html:
                k = k.lower()
            out.append(' ' + k if v is None else f' {k}="{esc_attr(v)}"')
        if html:
            if n.close == 'self' and not n.has('tal', 'content'):
                out.append(' />')
                continue
            if n.close == 'void':
                out.append('>')
                continue
        elif not n.kids:
            out.append('/>')
            continue
        out.append('>' + kids + f'</{name}>')
    return ''.join(out)


def case(src, ctx):
    library = src.flag(.4)
    c = common.make(src, library=library, metal=library, extend=src.flag(.3),
                    i18n=src.flag(.5), onerror=src.flag(.4),
                    errors=src.flag(.2), messages=src.flag(.2),
                    pre=not library and src.flag(.2), files=src.flag(.2),
                    attrs_expr=src.flag(.8), scripts=src.flag(.3),
                    inline=src.flag(.3), maxel=src.choice([6, 14, 20]))
    c.show(ctx)
    n = common.label_docs(ctx, c.docs)
    ctx.label('html' if c.html else 'xml')
    c.compile()
    docs = range(len(c.docs))
    again = {}
    kw = {'wrap': 0}
    if src.flag(.3):
        kw = {'strictinsert': src.draw(2), 'wrap': 0,
              'i18nInterpolate': src.draw(2), 'stackLimit': src.draw(2) * 100}
    for d in docs:
        want = canon(c.docs[d], c.html, True, c.prefixes)
        for show in (-1, 1):
            o, rt = c.real(doc=d, tal=0, metal=0, showtal=show, **kw)
            verdict(o, rt, want, 'reproduced source', c.html)
        o, rt = c.real(doc=d, tal=0, metal=0, showtal=0, **kw)
        verdict(o, rt, canon(c.docs[d], c.html, False, c.prefixes), 'without directives',
                c.html)
        again[d] = want
    # the reproduced documents mean the same
    if fits(c) is None:
        ctx.label('discarded: too large')
        return
    ro, rrt = c.real()
    programs = [compile_template(again[d], c.html, c.files[d]) for d in docs]
    macros = {}
    for p, m in programs:
        macros.update(m)
    if set(macros) != set(c.rmacros):
        raise Violation('macros %r became %r' % (
            sorted(c.rmacros), sorted(macros)))
    rt = c.runtime(macros)
    o = attempt(render, *programs[-1], rt, strictinsert=c.strict, wrap=0,
                i18nInterpolate=c.interpolate)
    if o.error != ro.error:
        raise Violation('the original %r, the reproduced source %r' % (ro, o))
    if o.text != ro.text:
        raise Violation('rendering of the reproduced source: '
                        + diff_text(ro.text, o.text))
    if rt.trace != rrt.trace or rt.translations != rrt.translations:
        raise Violation('the reproduced source evaluates %r, the original %r'
                        % (rt.trace, rrt.trace))
    if n:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'reproduced': again[docs[-1]]})


def verdict(o, rt, want, what, html):
    if o.error:
        raise Violation('%s: %r' % (what, o))
    if not html:
        o.text = minimise(o.text)
        want = minimise(want)
    if o.text != want:
        raise Violation(what + ': ' + diff_text(want, o.text))
    if rt.trace or rt.translations:
        raise Violation('%s: evaluated %r' % (what, rt.trace))
    check_runtime(rt, True)
