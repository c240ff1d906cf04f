"""The choice of namespace prefix does not matter."""
from . import common
from ..engine import Runtime
from ..gen import Gen
from ..gen import Opt
from ..harness import Case
from ..harness import compare
from ..harness import fits
from ..real import render
from ..tmpl import El
from ..tmpl import NS_URI
from ..tmpl import Writer
from ..tmpl import src_attr
from ..tmpl import walk

ID = 'C18'
LEVEL = 'exploration'
CASES = {'quick': 100000, 'thorough': 1500000}
RULE = ('a case is a generated template set (TAL, METAL, I18N) whose '
        'directives are written with drawn prefixes: several per namespace, '
        'declared and redeclared at any level before or after their use, '
        'the usual prefixes exchanged or bound to a foreign namespace, '
        'directives without prefix on template elements, and (XML) default '
        'namespaces; foreign attributes and elements with directive names '
        'are mixed in.  Output, evaluations and translations must be those '
        'of the reference model, which knows no prefixes; now and then also '
        'those of the template reproduced with processing off.  '
        'Non-trivial: a '
        'prefix other than the usual one was used or a foreign name mixed '
        'in; distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'expressions that list the attributes of the element are left out: they '
    'show the spelling']
PROBES = {}

POOL = ['t', 'x1', 'tal', 'metal', 'i18n', 'zz', 'a-b', 'm.n']
FOREIGN = ['o', 'svg']
NAMES = ['content', 'replace', 'define-macro', 'use-macro', 'translate', 'x',
         'condition', 'omit-tag', 'name', 'fill-slot', 'attributes']


class NSWriter(Writer):
    def __init__(self, src, html, file=None):
        Writer.__init__(self, file)
        self.src = src
        self.html = html
        self.odd = False
        self.env = {k: k for k in NS_URI} if html else {}
        self.default = None      # XML: default namespace

    def spell(self, prefix):
        s = self.src
        if self.html and s.flag(.1):
            return prefix.upper()
        return prefix

    def el(self, el):
        s = self.src
        outer, outer_default = self.env, self.default
        env = self.env = dict(outer)
        el.pos = (self.line, self.col)
        el.file = self.file
        here = set()
        for ns, k, v in el.items:
            if ns is None and k.startswith('xmlns:'):
                env[k[6:]] = 'foreign'
                here.add(k[6:])
        need = {ns for ns, k, v in el.items if ns in NS_URI}
        if el.nstag:
            need.add(el.nstag)
        new = []
        used = {k.partition(':')[0] for ns, k, v in el.items
                if ns is None and ':' in k}

        def declare(ns, last=False):
            pool = [p for p in POOL if p not in here and p not in used
                    and not (last and env.get(p) in need)]
            p = s.choice(pool)
            here.add(p)
            env[p] = ns
            new.append((p, ns))
        for ns in ('tal', 'metal', 'i18n'):
            if s.flag(.12):
                declare(ns)
        default = False
        if el.nstag and not self.html and self.closed(el):
            if self.default == el.nstag:
                default = s.flag(.7)
            elif self.default is None and s.flag(.3):
                default = True
                new.append(('', el.nstag))
                self.default = el.nstag
        for ns in sorted(need):
            if not any(v == ns for v in env.values()):
                declare(ns, True)
        attrs = []
        for ns, k, v in el.items:
            if ns == 'xmlns':
                continue
            if ns in NS_URI:
                if el.nstag == ns and s.flag(.4):
                    self.odd = True
                else:
                    k = self.prefix(ns) + ':' + k
            attrs.append((k, v))
        for p, ns in new:
            attrs.insert(s.draw(len(attrs) + 1),
                         ('xmlns:' + self.spell(p) if p else 'xmlns',
                          NS_URI[ns]))
        name = el.tag
        if el.nstag and not default:
            name = self.prefix(el.nstag) + ':' + name
        q = el.quote
        out = '<' + name
        for k, v in attrs:
            out += ' ' + k if v is None else f' {k}={q}{src_attr(v, q)}{q}'
        self.w(out)
        if el.close == 'self':
            self.w(' />')
        elif el.close == 'void':
            self.w('>')
        else:
            self.w('>')
            self.nodes(el.kids)
            self.w(f'</{name}>')
        self.env, self.default = outer, outer_default

    def prefix(self, ns):
        p = self.src.choice(sorted(
            p for p, v in self.env.items() if v == ns))
        if p != ns:
            self.odd = True
        return self.spell(p)

    def closed(self, el):
        """May el and all below it be in a default namespace?"""
        return all(e.nstag for e in walk(el.kids))


def foreign(src, docs, html):
    """Mix foreign names into the documents; were there any?"""
    n = 0
    for d in docs:
        if not html:
            d[0].items[:0] = [(None, 'xmlns:' + p, 'urn:' + p)
                              for p in FOREIGN]
        for e in list(walk(d)):
            if not src.flag(.15):
                continue
            n += 1
            if e.nstag:
                e.items.insert(0, (None, 'xmlns:q', 'urn:q'))
                e.put(None, src.choice(['q:', 'xml:'])
                      + src.choice(NAMES + ['lang']), 'x y')
                continue
            k = src.draw(3)
            if k == 0:
                # a foreign attribute with a telling name
                e.put(None, src.choice(FOREIGN) + ':' + src.choice(NAMES),
                      src.choice(['str:x', '', 'a b']))
            elif k == 1:
                # a usual prefix bound to something else
                p = src.choice(['tal', 'metal', 'i18n'])
                e.items.insert(len(FOREIGN) if e is d[0] and not html else 0,
                               (None, 'xmlns:' + p, 'urn:other'))
                e.put(None, p + ':' + src.choice(NAMES), 'str:x')
            elif e.close == 'full':
                e.kids.insert(src.draw(len(e.kids) + 1), El(
                    src.choice(FOREIGN) + ':' + src.choice(NAMES),
                    [(None, src.choice(NAMES), 'str:y')]))
    return n


def case(src, ctx):
    html = not src.flag(.5)
    metal = src.flag(.5)
    g = Gen(src, Opt(html=html, names=True, metal=metal, extend=metal and src.flag(.3),
                     i18n=src.flag(.5), onerror=src.flag(.2), attrs_expr=False,
                     structure=src.flag(.3), maxel=10, p_dir=.75, macros=2))
    docs = g.library() if metal else [g.document()]
    n = foreign(src, docs, html) if src.flag(.6) else 0
    c = Case(docs, g, html)
    odd = bool(n)
    for i, d in enumerate(docs):
        w = NSWriter(src, html)
        w.nodes(d)
        c.sources[i] = w.value()
        odd = odd or w.odd
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if html else 'xml')
    fault, m = common.failing(src, ctx, c, fits(c))
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    compare(c, mo, mrt, ro, rrt)
    if src.flag(.2):
        # the reproduced sources are spelled in the same way
        c.sources = [render(p, m, Runtime(), tal=0, metal=0, wrap=0)
                     for p, m in c.programs]
        c.programs = None
        ctx.show(reproduced=c.sources)
        ctx.label('reproduced')
        ro, rrt = c.real(**fault)
        compare(c, mo, mrt, ro, rrt)
    if odd:
        if n:
            ctx.label('with foreign names')
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ro.text})
