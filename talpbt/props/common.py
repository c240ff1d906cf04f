"""Shared pieces of the property modules."""
from ..core import Violation  # noqa: F401
from ..gen import Gen
from ..gen import Opt
from ..harness import Case
from ..harness import fits
from ..tmpl import NS_URI
from ..tmpl import El
from ..tmpl import Raw
from ..tmpl import count_directives
from ..tmpl import walk


BASE_ASSUMPTIONS = [
    'Python 3.12 html.parser and expat tokenise correctly',
    'templates use at most a few dozen elements; depth at most 10',
]


def kinds(docs):
    """Directive names used by the documents."""
    out = set()
    for d in docs:
        for e in walk(d):
            for ns, k, v in e.items:
                if ns in ('tal', 'metal', 'i18n'):
                    out.add(ns + ':' + k)
            if e.nstag:
                out.add('<%s:>' % e.nstag)
    return out


def label_docs(ctx, docs):
    n = 0
    for d in docs:
        n += count_directives(d)
    for k in kinds(docs):
        ctx.label(k)
    ctx.label('directives: %s' % ('0' if n == 0 else '1-3' if n < 4 else
                                  '4-9' if n < 10 else '10+'))
    return n


def padding(src, n):
    """Text that moves a power of two into the next n characters."""
    size = src.choice([1024, 2048, 4096, 8192, 16384, 32768, 65536])
    size -= src.draw(min(n, 1000) + 1)
    line = 'lorem ipsum dolor sit amet\n'
    return (line * (size // len(line) + 1))[:size]


def renamed(src, docs, html):
    """The documents with other namespace prefixes."""
    prefixes = dict(zip(NS_URI, src.sample(
        ['t', 'm.x', 'n-1', 'i18n', 'metal', 'tal', 'z'], 3, 3)))
    decl = [('xmlns', 'xmlns:' + prefixes[k], NS_URI[k]) for k in NS_URI]
    if html:
        for d in docs:
            for e in walk(d):
                e.items = [i for i in e.items if i[0] != 'xmlns']
        return [[El('div', decl, d)] for d in docs], prefixes
    for d in docs:
        for e in walk(d):
            if e.any_ns('xmlns'):
                e.items = decl + [i for i in e.items if i[0] != 'xmlns']
    return docs, prefixes


def make(src, html=None, library=False, files=False, strict=1,
         interpolate=1, prefixes=None, rename=.05, edit=None, cls=Case,
         **opts):
    """A generated case (page or page with macro documents)."""
    if html is None:
        html = not src.flag(.45)
    opts.setdefault('names', True)
    o = Opt(html=html, **opts)
    if src.flag(.02):
        # a larger document
        o.maxel *= 3
        o.maxdepth += 4
    g = Gen(src, o)
    docs = g.library() if library else [g.document()]
    if src.flag(.01):
        # far down in the file
        for d in docs:
            (d if html else d[0].kids).insert(0, Raw(
                '\n' * src.int(50, 400)))
    if rename and src.flag(rename):
        docs, prefixes = renamed(src, docs, html)
    if edit is not None:
        for d in docs:
            for e in walk(d):
                edit(e)
    return cls(docs, g, html, files=files, strict=strict,
                interpolate=interpolate, prefixes=prefixes)


def failing(src, ctx, c, m, p=.3, **kw):
    """(arguments, model result): now and then one of the evaluations of a
    case with error handlers fails."""
    if m is None or not m[1].ticks or not src.flag(p) or not any(
            e.has('tal', 'on-error') for d in c.docs for e in walk(d)):
        return {}, m
    fault = {'fault_at': src.draw(m[1].ticks)}
    ctx.show(**fault)
    ctx.label('with a fault')
    return fault, fits(c, **fault, **kw)


def probe(docs, expect, html=True, files=False, **kw):
    """Does rendering still give exactly this (wrong) result?  expect is the
    output or the name of an exception class."""
    from ..engine import Runtime
    from ..real import attempt
    from ..real import compile_template
    from ..real import render

    def run():
        macros = {}
        for i, d in enumerate(docs):
            f = 'f%d.pt' % i if files else None
            program, m = compile_template(d, html, f)
            macros.update(m)
        return render(program, m, Runtime([], {'a': 'A'}, macros=macros),
                      wrap=0, **kw)
    o = attempt(run)
    return expect == (o.error[0] if o.error else o.text)
