"""Extended macros and macro-only expansion keep the meaning of a page."""
from . import common
from ..core import Violation
from ..harness import Case
from ..harness import compare
from ..harness import diff_text
from ..harness import fits
from ..real import attempt
from ..real import compile_template
from ..real import render
from ..tmpl import El
from ..tmpl import Raw
from ..tmpl import walk

ID = 'C10'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 1000000}
RULE = ('a case is either (a) macro documents with chains of extensions and '
        'a page, compared with the reference model, or (b) macro documents '
        'and a page that is expanded (TAL off, METAL on), the expansion being '
        'rendered and expanded again and compared with the rendering of the '
        'page and with itself; where possible the macros are then changed '
        'and both are rendered again.  Non-trivial: (a) an extended macro was used, '
        '(b) the expansion contains a used macro; distinct by sources and '
        'values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'expansion is compared for pages that do not define extending macros and '
    'use none whose fillers re-offer slots (see KNOWN_FINDINGS.txt)']
PROBES = {
    # the expansion says use-macro for extend-macro and does not compile
    'extend-definition': lambda: common.probe(
        ['<b metal:define-macro="b"></b><b metal:define-macro="m" '
         'metal:extend-macro="mac:b"></b>'],
        '<b metal:define-macro="b"></b><b metal:define-macro="m" '
        'metal:use-macro="mac:b"></b>', tal=0),
    # a filler of an extended macro with a filled slot inside: nested
    # fill-slot, does not compile
    'nested-filler': lambda: common.probe(
        ['<b metal:define-macro="base"><i metal:define-slot="s">d</i></b>'
         '<b metal:define-macro="one" metal:extend-macro="mac:base">'
         '<u metal:fill-slot="s"><w metal:define-slot="t">w</w></u></b>',
         '<z metal:use-macro="mac:one"><a metal:fill-slot="t">page</a></z>'],
        '<b metal:use-macro="mac:one"><u metal:fill-slot="s">'
        '<a metal:fill-slot="t">page</a></u></b>', tal=0),
}


def case(src, ctx):
    if src.flag(.5):
        expansion(src, ctx)
    else:
        extension(src, ctx)


def extension(src, ctx):
    # mostly definitions inside definitions
    dense = src.flag(.3)
    c = common.make(src, library=True, metal=True, extend=True,
                    tal=not src.flag(.3), i18n=src.flag(.15),
                    onerror=src.flag(.5 if dense else .2),
                    errors=src.flag(.7 if dense else .1), macros=5,
                    maxel=24 if dense else 14, files=src.flag(.3),
                    structure=False, inline=dense or src.flag(.3),
                    inlined=.4 if dense else .12,
                    slotnames=2 if dense else 4,
                    maxdepth=8 if dense else 5,
                    p_use=.45 if dense else .3)
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('extension')
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real()
    compare(c, mo, mrt, ro, rrt)
    for _ in range(3 if dense else 1):
        fault, m = common.failing(src, ctx, c, (mo, mrt), .6)
        if fault and m:
            ctx.evals += 1
            compare(c, *m, *c.real(**fault))
    used = {e[4:].rpartition('/')[2] for k, e in mrt.trace if k == 'macro'}
    ext = {e.get('metal', 'define-macro') for d in c.docs for e in walk(d)
           if e.has('metal', 'extend-macro')}
    if used & ext:
        ctx.label('extended macro used')
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ro.text})


def no_loop(el):
    """White space in front of a loop is repeated with it, so an element that
    is moved to another place may not be a loop itself."""
    # a filler keeps the translation domain of the page, which its new
    # surroundings in the expansion need not have
    el.items = [it for it in el.items if it[0] != 'i18n' or it[1] not in (
        'domain', 'source', 'target')]
    if el.any_ns('metal'):
        el.items = [it for it in el.items if it[:2] != ('tal', 'repeat')]


def outermost(kids):
    """Elements with METAL directives that are in no other such element."""
    for k in kids:
        if isinstance(k, El):
            if k.any_ns('metal'):
                yield k
            else:
                yield from outermost(k.kids or ())


def revise(src, c):
    """Add text to macros that only the page uses, outside any filler, and
    outside their slots."""
    def called(e):
        return (e.get('metal', 'use-macro') or '')[4:].rpartition('/')[2]
    uses = [called(e) for d in c.docs for e in walk(d)
            if e.has('metal', 'use-macro')]
    extended = {e.get('metal', 'extend-macro')[4:].rpartition('/')[2]
                for d in c.docs for e in walk(d)
                if e.has('metal', 'extend-macro')}
    page = {called(e) for e in outermost(c.docs[-1])} - {''}
    names = []
    for d in c.docs[:-1]:
        for e in outermost(d):
            name = e.get('metal', 'define-macro')
            if name in page and uses.count(name) == 1 \
                    and name not in extended and e.kids \
                    and not e.has('metal', 'define-slot') \
                    and src.flag(.7):
                e.kids.insert(0, Raw('[revised]'))
                names.append(name)
    return names


def expansion(src, ctx):
    extend = src.flag(.4)
    c = common.make(src, library=True, metal=True, extend=extend,
                    reoffer=not extend, libonly=extend,
                    tal=not src.flag(.2), i18n=src.flag(.3),
                    onerror=src.flag(.3), errors=src.flag(.1), macros=4,
                    maxel=14, macroname=False, usedefault=False,
                    uniqueslots=True, crossunit=False, edit=no_loop)
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('expansion, extending' if extend else 'expansion')
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    ro, rrt = c.real()
    ex, xrt = c.real(tal=0)
    if ex.error:
        raise Violation('expansion %r' % ex)
    ctx.show(expansion=ex.text)
    for k, e in xrt.trace:
        if k != 'macro':
            raise Violation('expansion evaluates %s %r' % (k, e))
    program, macros = compile_template(ex.text, c.html, c.files[-1])
    lib = dict(c.rmacros)
    lib.update(macros)
    rt = c.runtime(lib)
    again = attempt(render, program, macros, rt, strictinsert=c.strict,
                    wrap=0)
    if again.error != ro.error:
        raise Violation('rendering the page %r, rendering its expansion %r'
                        % (ro, again))
    if ro.error is None and ro.text != again.text:
        raise Violation('rendering the expansion: '
                        + diff_text(ro.text, again.text))
    rt = c.runtime(lib)
    twice = attempt(render, program, macros, rt, wrap=0, tal=0)
    if twice.text != ex.text:
        raise Violation('expanding again: ' + diff_text(
            ex.text, twice.text or repr(twice)))
    marked = revise(src, c)
    if marked:
        # the expansion still follows changes of the macros it shows
        ctx.label('macro revised')
        new = Case(c.docs, c, c.html, prefixes=c.prefixes, strict=c.strict)
        ctx.show(revised=new.sources)
        ro2, rrt = new.real()
        lib = dict(new.rmacros)
        lib.update(macros)
        again = attempt(render, program, macros, c.runtime(lib),
                        strictinsert=c.strict, wrap=0)
        if again.error != ro2.error or again.text != ro2.text:
            raise Violation('after a change to macros %r: the page %r, its '
                            'expansion %r' % (marked, ro2, again))
    if any(k == 'macro' for k, e in xrt.trace):
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'expansion': ex.text,
                        'output': ro.text})
