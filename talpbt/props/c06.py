"""Attribute replacement edits exactly the named attributes."""
from . import common
from ..gen import ATTRS
from ..gen import BOOLS
from ..gen import Gen
from ..gen import HTML_TAGS
from ..gen import HTML_VOID
from ..gen import Opt
from ..gen import WORDS
from ..gen import XML_TAGS
from ..harness import Case
from ..harness import compare
from ..harness import fits
from ..tmpl import El
from ..tmpl import Raw

ID = 'C06'
LEVEL = 'exploration'
CASES = {'quick': 250000, 'thorough': 2000000}
RULE = ('a case is one to three elements with generated source attributes '
        'and tal:attributes (plus define, omit-tag, content, replace), '
        'rendered and compared with the reference merge, evaluations '
        'included.  Non-trivial: at least one replacement; distinct by '
        'source and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}

PREFIXED = ['xml:lang', 'xml:space', 'v:class', 'v:alt']
MORE = ['onclick', 'A', 'z', 'content', 'x_1', 'aria-label', 'é', 'repeat',
        'checkedx', 'colspan']


def element(g, s, html, depth=0):
    kind = s.draw(8)
    close = 'full'
    nstag = None
    if html:
        tag = s.choice(HTML_TAGS)
        if kind in (1, 2):
            tag = s.choice(HTML_VOID)
            close = s.choice(['void', 'self'])
    else:
        tag = s.choice(XML_TAGS)
    if kind == 3:
        close = 'self'
    elif kind == 4:
        nstag = 'tal'
    el = El(tag, close=close, nstag=nstag)
    if nstag and s.flag(.5):
        el.bare = True
    if s.flag(.2):
        el.quote = "'"
    pool = ATTRS + BOOLS + MORE + (['xml:lang', 'xlink:href', 'on:x.y'] if html
                                  else PREFIXED)
    if html:
        pool = [n for n in pool if n != 'A']
    if nstag:
        # unprefixed names of directives are directives here
        pool = [n for n in pool if n not in ('content', 'repeat')]
    if not nstag:
        for name in s.sample(pool, 0, 7, .7):
            if html and (s.flag(.5) if name in BOOLS else s.flag(.05)):
                v = None
            else:
                v = s.choice(WORDS) if s.flag(.6) else g.attr_text()
            r = s.draw(10)
            if html and r < 3 and 'é' not in name:
                name = (name.upper, name.title, name.swapcase)[r]()
            elif not html and r == 1 and ':' not in name:
                name = name.title()
            el.put(None, name, v)
    own = [k for ns, k, v in el.items if ns is None]
    taken = {k.lower() for k in own}
    if not html:
        # names differing in case only are different names in XML
        own = own + [k.upper() for k in own if ':' not in k
                     and k.upper() not in own and s.flag(.3)]
    rest = [n for n in pool if n.lower() not in taken]
    s0 = s.sample(own, 0, 4, .7) if own else []
    s1 = s.sample(rest, 0 if s0 else 1, 4, .5)
    names = s0 + s1
    for i in range(len(names) - 1, 0, -1):
        j = s.draw(i + 1)
        names[i], names[j] = names[j], names[i]
    parts = []
    for n in names:
        low = n.lower()
        if html and low in BOOLS:
            e = g.x_bool()
        else:
            e = g.x_text()
        if html:
            r = s.draw(6)
            n = n.upper() if r == 1 and 'é' not in n else \
                low if r > 1 else n
        parts.append(n + s.choice([' ', '  ']) + e)
    el.put('tal', 'attributes', g.join(parts))
    if s.flag(.25):
        el.put('tal', 'define', g.a_define())
    if s.flag(.15):
        el.put('tal', 'repeat', g.a_repeat())
    if s.flag(.15):
        el.put('tal', 'omit-tag', g.x_bool())
    if s.flag(.15) and close != 'void' and tag not in HTML_VOID:
        el.put('tal', 'content', g.x_text())
    if s.flag(.1):
        el.put('tal', 'on-error', g.x_handler())
    g.shuffle(el)
    if close == 'full':
        if depth < 2 and s.flag(.2):
            el.kids.append(element(g, s, html, depth + 1))
        elif s.flag(.4):
            el.kids.append(Raw('t'))
    return el


def case(src, ctx):
    html = not src.flag(.4)
    g = Gen(src, Opt(html=html, errors=True, onerror=True, structure=False))
    nodes = src.many(lambda: element(g, src, html), 1, 2, .3)
    docs = [g.wrap(nodes)]
    if not html:
        docs[0][0].put(None, 'xmlns:v', 'urn:v')
    c = Case(docs, g, html)
    c.show(ctx)
    common.label_docs(ctx, docs)
    ctx.label('html' if html else 'xml')
    fault, m = common.failing(src, ctx, c, fits(c))
    if m is None:
        ctx.label('discarded: too large')
        return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    compare(c, mo, mrt, ro, rrt)
    ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                   {'source': c.sources[-1], 'output': ro.text})
