"""Random template generator (constructive: everything it makes is legal)."""
from zope.i18nmessageid import Message

from .engine import DEFAULT
from .engine import ERRORS
from .model import Frag
from .model import StrFrag
from .static import clean
from .tmpl import El
from .tmpl import NS_URI
from .tmpl import Raw
from .tmpl import serialise


HTML_TAGS = ['div', 'span', 'b', 'em', 'i', 'a', 'strong', 'section', 'form',
             'u', 'code', 'label', 'ul', 'dl', 'nav', 'table']
HTML_VOID = ['img', 'br', 'input', 'hr', 'meta', 'link']
XML_TAGS = ['a', 'b', 'c', 'item', 'ul', 'br', 'Mixed', 'x-y', 'p', 'pre',
            'script', 'img', 'd.e', 'é']
ATTRS = ['class', 'id', 'title', 'href', 'alt', 'style', 'name', 'value',
         'data-x', 'lang']
BOOLS = ['checked', 'selected', 'disabled', 'readonly', 'ismap', 'compact',
         'nowrap', 'declare', 'noshade', 'multiple', 'noresize', 'defer']
VARS = ['a', 'b', 'c', 'x', 'item']
# names of other shapes, and names that differ in case only
ODD_VARS = ['a', 'A', '_b-c', 'X2', 'item', 'text', 'globalX',
            'itemList_1', 'local-']
ODD_SLOTS = ['s1', 'S1', '_s-2', 'slot_X9', 's']
ODD_MACROS = ['m0', 'M0', '_m-1', 'page_X9', 'm', 'default', 'macroname']
WORDS = ['one', 'two', 'text', 'foo bar', 'x', 'Hello', '5', 'naïve', '日本',
         '(z)', 'a=b', 'q;r', "it's", 'say "hi"', '100%', '$x', '${y}', '$$']
NASTY = ['x', '<', '>', '&', '"', "'", '&amp;', '&lt;', '&#60;', '<b>',
         '</div>', '-->', ']]>', '<!--', ';', '${x}', 'é', ' ', ' ',
         'tal:content="x"', '<?x?>', '&nbsp', '&copy;', '<script>', '=', '/',
         '\\', '%s', '{0}', ' ', '<![CDATA[', '&&', '<<', '😀', '`',
         '&#', '&#x4', '&a1', '&lt', '&#9']
SPACE = ['\n', '\t', '  ', '\r\n']
RAW_HTML = [' ', '\n', '\n  ', 'one', 'two ', '&amp;', '&lt;', '&#65;',
            '&#x41;', '&nbsp;', 'é', '>', '"', "'", '${n}', '\t', ' & ',
            '\r\n ', ' < ', '=', '$', '日', '%s']
RAW_XML = [' ', '\n', '\n  ', 'one', 'two ', '&amp;', '&lt;', '&#65;',
           '&#x41;', '&gt;', 'é', '>', '"', "'", '${n}', '\t', '=', '日', '%s']
DOMAINS = ['d1', 'd2', 'default', 'upper']
XMLNS = [('xmlns', 'xmlns:' + k, NS_URI[k]) for k in ('tal', 'metal', 'i18n')]


class Obj:
    """A non-string value."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return 'Obj(%r)' % self.s


class Opt:
    html = True
    tal = True
    metal = False
    i18n = False
    onerror = False
    errors = False      # err: expressions
    structure = True
    messages = False
    fragdirs = False    # directives inside structure values
    strict = True
    maxel = 12
    maxdepth = 5
    p_dir = 0.6         # probability that an element carries directives
    multiline = True
    macros = 3
    extend = False
    p_i18nattr = .25
    p_use = .3          # use-macro
    slotnames = 4       # how many names of slots
    inlined = .12       # how often macros are defined where they stand
    attrs_expr = True
    p_pre = .1
    pre = False
    scripts = False     # tal:script
    ws = True
    macroname = True
    usedefault = True   # use-macro="default"
    uniqueslots = False
    reoffer = True      # fillers may define slots
    libonly = False     # no macros in the page
    lenient = False     # structure values that strict insertion rewrites
    cycles = False      # macros may use any macro
    crossunit = True    # named parts may be moved out of their unit by METAL
    inline = False      # macros may be defined anywhere
    paths = True        # macro expressions with slashes
    names = False       # names of unusual shapes

    def __init__(self, **kw):
        for k, v in kw.items():
            getattr(self, k)
            setattr(self, k, v)


class Cx:
    """Lexical context while generating."""
    __slots__ = ('unit', 'macro', 'index', 'inert', 'slots', 'fills', 'named')

    def __init__(self, unit=False, macro=False, index=-1, inert=False,
                 slots=(), fills=None, named=False):
        self.unit = unit        # inside an element with i18n:translate
        self.macro = macro      # inside define-macro
        self.index = index      # macros with a greater index may be used
        self.inert = inert      # METAL inactive (use-macro body)
        self.slots = slots      # slots of the macro being used
        self.fills = fills      # slots already filled in this use
        self.named = named      # inside an i18n:name value

    def but(self, **kw):
        c = Cx(self.unit, self.macro, self.index, self.inert, self.slots,
               self.fills, self.named)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Gen:
    def __init__(self, src, opt):
        self.s = src
        self.o = opt
        self.data = []
        self.frags = []
        self.left = opt.maxel
        self.macro_names = []     # index -> name
        self.macro_slots = []     # index -> slot names offered
        self.inline = []          # (name, index, slots) defined elsewhere
        self.pending = []         # such definitions in progress
        self.inlined = 0
        self.offered = set()
        self.odd = opt.names and src.flag(.12)
        self.vars = ODD_VARS if self.odd else VARS

    # values --------------------------------------------------------------

    def add(self, v):
        self.data.append(v)
        return 'data:%d' % (len(self.data) - 1)

    def nasty(self, lo=0, hi=6):
        s = self.s
        pool = NASTY + SPACE if self.o.multiline and s.flag(.2) else NASTY
        return ''.join(s.many(lambda: s.choice(pool), lo, hi, .7))

    def string(self):
        s = self.s
        return s.freq([(3, None), (5, 1)]) and self.nasty() or s.choice(WORDS)

    def message(self):
        s = self.s
        default = None if s.flag(.5) else self.string()
        mapping = None
        if s.flag(.4):
            mapping = {'y': self.string(), 'x': 'v'}
        return Message(s.choice(WORDS + ['unk1', 'unk ${y}', '<i>', '']),
                       domain=s.choice([None, 'd1', 'md']),
                       default=default, mapping=mapping)

    def plain(self):
        """Any non-sequence value."""
        s = self.s
        return s.freq([
            (6, self.string), (1, lambda: ''),
            (1 if self.o.html else 0, lambda: self.nasty() + s.choice(
                ['\x1f', '\0', '\ufeff', '\x7f'])),
            (1, lambda: s.choice([0, 1, -7, 3.5, True, False])),
            (1, lambda: None), (1, lambda: DEFAULT),
            (1, lambda: Obj(self.string())),
            (2 if self.o.messages else 0, self.message)])()

    def seq(self):
        s = self.s
        if s.flag(.015):
            return [self.plain()] * s.int(8, 40)
        return s.many(self.plain, 0, 3, .65)

    def frag(self):
        s = self.s
        g = Gen(s, Opt(html=self.o.html, tal=self.o.fragdirs,
                       i18n=self.o.fragdirs, maxel=3, maxdepth=2, p_dir=.4,
                       structure=False, multiline=False, ws=False))
        nodes = g.nodes(0, Cx(unit=True))
        for n in walk_el(nodes):
            n.bare = False
        if not self.o.html and self.o.fragdirs:
            for n in nodes:
                if type(n) is El:
                    n.items[:0] = XMLNS
        return (Frag if s.flag(.3) else StrFrag)(nodes, serialise(nodes))

    # expressions ---------------------------------------------------------

    def err(self):
        return 'err:%d' % self.s.draw(len(ERRORS))

    def lit(self):
        """Text usable inside an expression in an attribute."""
        t = self.string()
        if not self.o.html:
            t = t.replace('\n', ' ').replace('\t', ' ').replace('\r', ' ')
        return 'str:' + t

    def var(self):
        s = self.s
        if self.o.attrs_expr and s.flag(.2):
            if s.flag(.6):
                return 'attr:' + s.choice(ATTRS)
            return 'attrs:'
        if self.o.metal and self.o.macroname and s.flag(.05):
            return 'var:macroname'
        return 'var:' + s.choice(self.vars)

    def x_any(self):
        s = self.s
        return s.freq([
            (4, self.lit), (5, lambda: self.add(self.plain())),
            (5, self.var), (1, lambda: 'default'), (1, lambda: 'nothing'),
            (1, lambda: self.add(self.seq())),
            (1 if self.o.errors else 0, self.err)])()

    x_value = x_any

    def x_text(self):
        s = self.s
        return s.freq([
            (4, self.lit), (5, lambda: self.add(self.plain())),
            (4, self.var), (1, lambda: 'default'), (1, lambda: 'nothing'),
            (1, lambda: 'not:' + self.var()),
            (1 if self.o.errors else 0, self.err)])()

    def x_bool(self):
        s = self.s
        e = s.freq([
            (3, lambda: 'str:1'), (2, lambda: 'nothing'),
            (3, lambda: self.add(self.plain())), (2, self.var),
            (1, lambda: 'default'), (1, lambda: 'str:'),
            (1, lambda: self.add(self.seq())),
            (1 if self.o.errors else 0, self.err)])()
        return 'not:' + e if s.flag(.25) else e

    def x_seq(self):
        s = self.s
        return s.freq([
            (8, lambda: self.add(self.seq())), (1, lambda: 'nothing'),
            (1, lambda: self.add(tuple(self.seq()))),
            (1 if self.o.errors else 0, self.err),
            (1 if self.o.errors else 0, self.var)])()

    def x_struct(self):
        s = self.s
        return s.freq([
            (6, self.x_frag), (1, lambda: 'default'),
            (1, lambda: 'nothing'), (1, lambda: self.add(s.choice(
                [0, 42, False, '', 0.0]))),
            (1 if self.o.messages else 0, lambda: self.add(Message(
                s.choice(['~m', '~n ${x}', '~unk']), domain=s.choice(
                    [None, 'md']), default=s.choice([None, 'dflt']),
                mapping=s.choice([None, {'x': 'v'}])))),
            (1 if self.o.errors else 0, self.err)])()

    def x_frag(self):
        s = self.s
        if self.frags and s.flag(.25):
            # the same value in another place
            return s.choice(self.frags)
        x = self.add(self.frag())
        self.frags.append(x)
        return x

    def x_content(self):
        s = self.s
        if self.o.structure and s.flag(.25):
            return 'structure ' + self.x_struct()
        return ('text ' if s.flag(.1) else '') + self.x_text()

    # statement arguments -------------------------------------------------

    def join(self, parts):
        s = self.s
        if not self.o.ws:
            return '; '.join(p.replace(';', ';;') for p in parts)
        seps = ['; ', ';', ' ; ']
        if self.o.html:
            seps.append(';\n  ')
        out = parts[0].replace(';', ';;')
        for p in parts[1:]:
            out += s.choice(seps) + p.replace(';', ';;')
        if s.flag(.1):
            out += s.choice([';', '; '])
        return out

    def a_define(self):
        s = self.s

        def part():
            return (s.choice(['', '', 'local ', 'global '])
                    + s.choice(self.vars) + ' ' + self.x_value())
        return self.join(s.many(part, 1, 3, .4))

    def a_repeat(self):
        return self.s.choice(self.vars) + ' ' + self.x_seq()

    def a_attributes(self, el):
        s = self.s
        pool = self.attr_pool(el)
        if el.nstag:
            # an unprefixed directive name would denote the directive
            pool.remove('name')
        names = s.sample(pool, 1, 4, .5)
        return self.join([
            (n.upper() if self.o.html and s.flag(.1) else n) + ' '
            + (self.x_bool() if self.o.html and n in BOOLS
               else self.x_text()) for n in names])

    def attr_pool(self, el):
        own = [k for ns, k, v in el.items if ns is None]
        low = [k.lower() for k in own]
        return [k.lower() if self.o.html else k for k in own] + [
            k for k in ATTRS + BOOLS if k not in low]

    # nodes ---------------------------------------------------------------

    def raw(self):
        s = self.s
        pool = RAW_HTML if self.o.html else RAW_XML
        t = ''.join(s.many(lambda: s.choice(pool), 1, 5, .6))
        k = s.draw(24)
        if k == 1:
            t += '<!--%s-->' % s.choice([' c ', '', 'a<b>&"', ' x=\n '])
        elif k == 2 and not self.o.html:
            t += '<![CDATA[%s]]>' % s.choice(['', 'a<b>&"', ' x\n '])
        elif k == 3:
            t += s.choice(['<?php x ?>', '<?y?>'])
        elif k == 4:
            t += ']'
        if self.o.html:
            # keep clear of references that end at the end of the text
            t = t.replace(' & ', ' &amp; ') if t.endswith('& ') else t
        return Raw(t)

    def nodes(self, depth, cx, lo=0):
        s = self.s
        out = []
        while len(out) < 6 and (len(out) < lo or s.flag(.62)):
            if self.left > 0 and depth < self.o.maxdepth and s.flag(
                    .6 if depth else .8):
                out.append(self.el(depth, cx))
            else:
                out.append(self.raw())
        return out

    def static_items(self, el):
        s = self.s
        pool = ATTRS + (BOOLS[:4] if s.flag(.3) else [])
        for name in s.sample(pool, 0, 4, .45):
            if self.o.html and (s.flag(.05) or name in BOOLS and s.flag(.5)):
                el.put(None, name, None)
                continue
            v = self.s.choice(WORDS) if s.flag(.6) else self.attr_text()
            if s.flag(.03):
                v = name
            if s.flag(.05):
                name = name.upper() if self.o.html else name.title()
            el.put(None, name, v)

    def attr_text(self):
        """A static attribute value (see DESIGN: complete references are
        excluded by construction)."""
        t = self.nasty(0, 4)
        if not self.o.html:
            t = t.replace('\n', ' ').replace('\t', ' ').replace('\r', ' ')
        return clean(t)

    def el(self, depth, cx):
        s = self.s
        o = self.o
        self.left -= 1
        directive = s.flag(o.p_dir if depth else (1 + o.p_dir) / 2)
        nstag = None
        close = 'full'
        directive = directive and (o.tal or o.metal or o.i18n)
        if directive and s.flag(.15):
            opts = [k for k, on in (('tal', o.tal), ('metal', o.metal),
                                    ('i18n', o.i18n)) if on]
            nstag = s.choice(opts)
            tag = s.choice(['block', 'x', 'omit'])
        elif o.html:
            if s.flag(.12):
                tag = s.choice(HTML_VOID)
                close = 'void'
            else:
                tag = s.choice(HTML_TAGS)
                if o.pre and not cx.named and s.flag(o.p_pre):
                    tag = 'pre'
            if s.flag(.04):
                tag = tag.upper()
        else:
            tag = s.choice(XML_TAGS)
        if close == 'full' and s.flag(.1):
            close = 'self'
        elif close == 'void' and s.flag(.3):
            close = 'self'
        el = El(tag, close=close, nstag=nstag)
        if nstag and s.flag(.5):
            el.bare = True
        if s.flag(.2):
            el.quote = "'"
        el.upper = o.html and s.flag(.05)
        if not nstag:
            self.static_items(el)
        kcx = cx
        if directive:
            kcx = self.directives(el, depth, cx)
            # statement order in the source must not matter
            if s.flag(.5):
                self.shuffle(el)
            if o.names and o.html and s.flag(.01):
                k = s.choice(list(NS_URI))
                el.items.insert(s.draw(len(el.items) + 1), (
                    'xmlns', 'xmlns:' + k, NS_URI[k]))
        if el.close == 'full':
            el.kids = self.nodes(depth + 1, kcx)
        if self.pending and self.pending[-1][0] is el:
            el, name, index, more = self.pending.pop()
            self.inline.append((name, index, tuple(sorted(
                self.offers(el) | set(more)))))
        return el

    def shuffle(self, el):
        s = self.s
        it = el.items
        for i in range(len(it) - 1, 0, -1):
            j = s.draw(i + 1)
            it[i], it[j] = it[j], it[i]

    def directives(self, el, depth, cx):
        s = self.s
        o = self.o
        kcx = cx
        # namespace-tagged elements may only carry their own namespace's
        # directives unprefixed, others prefixed: both are expressed by items
        if o.tal:
            if s.flag(.3):
                el.put('tal', 'define', self.a_define())
            if s.flag(.22):
                el.put('tal', 'condition', self.x_bool())
            if s.flag(.22):
                el.put('tal', 'repeat', self.a_repeat())
            void = el.close == 'void' or el.tag.lower() in HTML_VOID
            k = s.draw(10)
            replaced = False
            if k in (1, 2, 3) and not (o.html and void):
                el.put('tal', 'content', self.x_content())
            elif k in (4, 5):
                el.put('tal', 'replace', self.x_content())
                replaced = True
            if s.flag(.1 if el.nstag else .35):
                if replaced:
                    old = o.attrs_expr
                    o.attrs_expr = False
                    el.put('tal', 'attributes', self.a_attributes(el))
                    o.attrs_expr = old
                else:
                    el.put('tal', 'attributes', self.a_attributes(el))
            if s.flag(.2) and not replaced:
                el.put('tal', 'omit-tag',
                       '' if s.flag(.4) else self.x_bool())
            if o.onerror and s.flag(.3):
                el.put('tal', 'on-error', self.x_handler())
        if o.i18n:
            kcx = self.i18n(el, cx)
        if o.scripts and s.flag(.12) and el.close == 'full' and not (
                el.has('tal', 'content') or el.has('tal', 'replace')
                or el.has('i18n', 'translate')):
            el.put('tal', 'script', s.choice(['text/server-x', 'lang', 'L']))
        if o.metal:
            kcx = self.metal(el, depth, cx, kcx)
        if not el.directive:
            if o.tal:
                el.put('tal', 'omit-tag', self.x_bool())
            elif o.i18n:
                el.put('i18n', 'domain', s.choice(DOMAINS))
            elif o.metal:
                pass
        return kcx

    def x_handler(self):
        s = self.s
        e = s.freq([(3, lambda: 'errinfo:'), (3, self.lit), (2, self.var),
                    (1, lambda: 'nothing'), (1, lambda: 'default'),
                    (1 if self.o.errors else 0, self.err)])()
        if self.o.structure and s.flag(.15):
            return 'structure ' + self.x_struct()
        return ('text ' if s.flag(.1) else '') + e

    # I18N ----------------------------------------------------------------

    def i18n(self, el, cx):
        s = self.s
        o = self.o
        kcx = cx
        content = el.has('tal', 'content') or el.has('tal', 'replace')
        if s.flag(.25 if o.metal else .15):
            el.put('i18n', 'domain', s.choice(DOMAINS))
        if s.flag(.07):
            k = s.choice(['source', 'target', 'ignore', 'ignore-attributes'])
            el.put('i18n', k, s.choice(['en', '', 'title;alt'])
                   if k[0] == 'i' else 'en')
        if el.close == 'full' and s.flag(.4):
            if content:
                el.put('i18n', 'translate', '')
                kcx = cx.but(unit=cx.unit or o.crossunit)
            else:
                mid = '' if s.flag(.6) else s.choice(
                    ['msg-1', 'unk', 'm ${n1}', 'x y', 'unk ${n2} z',
                     ' msg-1 ', 'a  b', 'unk '])
                el.put('i18n', 'translate', mid)
                kcx = cx.but(unit=o.crossunit or not cx.inert)
                if mid and s.flag(.3):
                    el.put('i18n', 'data', self.x_data())
        if cx.unit and s.flag(.5) and el.tag.lower() != 'pre':
            el.put('i18n', 'name', s.choice(['n1', 'n2', 'a-b', 'N_3', '_x', 'y_']))
            kcx = kcx.but(named=True)
        if not el.nstag and s.flag(o.p_i18nattr) \
                and not el.has('tal', 'replace'):
            talattrs = el.get('tal', 'attributes') or ''
            done = {w.split()[0].lower() if o.html else w.split()[0]
                    for w in talattrs.replace(';;', '').split(';')
                    if w.split()}
            own = [k for ns, k, v in el.items if ns is None]
            pool = own + [a for a in ('title', 'alt') if a not in
                          [k.lower() for k in own]]
            if s.flag(.3):
                # attributes that come from tal:attributes only
                low = [k.lower() if o.html else k for k in pool]
                pool += [n for n in sorted(done) if n not in low]
            specs = []
            for n in s.sample(pool, 1, 3, .4):
                low = n.lower() if o.html else n
                if s.flag(.3) and low not in done:
                    specs.append(n + ' ' + s.choice(['mid-a', 'unk-b', 'Mid_C', '<m>&']))
                else:
                    specs.append(n)
            if specs:
                el.put('i18n', 'attributes',
                       s.choice(['; ', ';', ' ; ']).join(specs)
                       + s.choice(['', '', ';']))
        return kcx

    def x_data(self):
        s = self.s
        return s.freq([
            (4, lambda: self.add({k: self.string() for k in
                                  s.sample(['n1', 'n2', 'q'], 0, 3)})),
            (1, lambda: 'nothing'),
            (1 if self.o.errors else 0, self.err)])()

    # METAL ---------------------------------------------------------------

    def metal(self, el, depth, cx, kcx):
        s = self.s
        o = self.o
        if cx.inert:
            # only fill-slot means something here
            todo = [n for n in cx.slots if n not in cx.fills]
            if todo and s.flag(.7):
                name = s.choice(todo)
                cx.fills.add(name)
                el.put('metal', 'fill-slot', self.spaced(name))
                own = el.has('i18n', 'translate') and not el.has(
                    'tal', 'content') and not el.has('tal', 'replace')
                kcx = kcx.but(inert=False, slots=(), fills=None,
                              unit=kcx.unit if o.crossunit else own,
                              macro=cx.macro and o.reoffer)
                if cx.macro and o.reoffer and s.flag(.3):
                    el.put('metal', 'define-slot', self.slot_name(cx))
            elif o.inline and s.flag(.08):
                # without meaning here
                el.put('metal', *s.choice([
                    ('define-slot', 's1'), ('define-macro', 'zz'),
                    ('use-macro', 'mac:zz'), ('use-macro', 'err:0')]))
            return kcx
        if o.inline and s.flag(o.inlined) and (cx.index >= 0 or not o.libonly):
            return self.inline_macro(el, cx, kcx)
        if s.flag(o.p_use):
            cands = self.usable(cx)
            if not cands and not o.usedefault:
                return kcx
            if cands and not (s.flag(.08) and o.usedefault):
                name, slots = s.choice(cands)
                el.put('metal', 'use-macro', self.mac(name))
            else:
                el.put('metal', 'use-macro', 'default' if s.flag(.7) or not
                       self.o.errors else self.err())
                slots = (ODD_SLOTS if self.odd else ['s1', 's2'])[:2]
            return kcx.but(inert=True, slots=tuple(slots), fills=set(),
                           unit=kcx.unit and o.crossunit)
        if cx.macro and s.flag(.4):
            el.put('metal', 'define-slot', self.slot_name(cx))
            return kcx.but(unit=kcx.unit and o.crossunit)
        return kcx

    def mac(self, name):
        if self.o.paths and self.s.flag(.12):
            name = self.s.choice(
                ['lib/', 'a/b/', 'm0/', '/', 'a&b/', 'x"y/', '<z>/']) + name
        return 'mac:' + name

    def spaced(self, name):
        if self.o.ws and self.s.flag(.06):
            return self.s.choice([' %s', '%s ', '  %s  ']) % name
        return name

    def usable(self, cx):
        """(name, slots) of the macros that may be used."""
        out = [(n, self.macro_slots[i] or ())
               for i, n in enumerate(self.macro_names)
               if self.o.cycles or i > cx.index]
        return out + [(n, slots) for n, i, slots in self.inline
                      if i > cx.index]

    def inline_macro(self, el, cx, kcx):
        """Define a macro here; it is known to what follows."""
        s = self.s
        name = 'n%d' % self.inlined
        self.inlined += 1
        # between the indices of its surroundings and of the next macro
        index = (cx.index + cx.index // 1 + 1) / 2
        el.put('metal', 'define-macro', self.spaced(name))
        cands = self.usable(cx.but(index=index))
        kcx = kcx.but(macro=True, index=index,
                      unit=kcx.unit and self.o.crossunit)
        more = ()
        if self.o.extend and cands and s.flag(.4):
            target, more = s.choice(cands)
            el.put('metal', 'extend-macro', self.mac(target))
            kcx = kcx.but(inert=True, slots=tuple(more), fills=set())
        self.pending.append((el, name, index, more))
        return kcx

    def offers(self, el):
        return {v.strip() for e in walk_el([el]) for ns, k, v in e.items
                if ns == 'metal' and k == 'define-slot'}

    def slot_name(self, cx):
        pool = ODD_SLOTS if self.odd else ['s1', 's2', 's3', 'slot-x']
        pool = pool[:self.o.slotnames]
        if self.o.uniqueslots:
            pool = [n for n in pool if n not in self.offered]
            if not pool:
                pool = ['s%d' % (len(self.offered) + 4)]
        name = self.s.choice(pool)
        self.offered.add(name)
        return self.spaced(name)

    def macro_el(self, index):
        """An element defining macro number index."""
        s = self.s
        self.left = max(self.left, 4)
        self.offered = set()
        cx = Cx(macro=True, index=index)
        el = El(s.choice(HTML_TAGS if self.o.html else XML_TAGS[:6]))
        if s.flag(.12):
            el.nstag = s.choice(['metal', 'tal'])
            el.bare = s.flag(.4)
        else:
            self.static_items(el)
        if self.o.tal and s.flag(.4):
            old = self.o.metal
            self.o.metal = False
            kcx = self.directives(el, 1, cx)
            self.o.metal = old
            cx = kcx.but(macro=True, index=index)
        el.put('metal', 'define-macro', self.spaced(self.macro_names[index]))
        first = 0 if self.o.cycles else index + 1
        if self.o.extend and first < len(self.macro_names) and s.flag(.6):
            j = s.int(first, len(self.macro_names) - 1)
            el.put('metal', 'extend-macro', self.mac(self.macro_names[j]))
            cx = cx.but(inert=True, slots=tuple(self.macro_slots[j] or ()),
                        fills=set(), unit=cx.unit and self.o.crossunit)
        el.kids = self.nodes(1, cx, 1)
        self.macro_slots[index] = sorted(self.offers(el) | (
            set(self.macro_slots[j] or ()) if el.has('metal', 'extend-macro')
            else set()))
        return el

    # documents -----------------------------------------------------------

    def document(self):
        """Nodes of a single template."""
        nodes = self.nodes(0, Cx(), 2)
        return self.wrap(nodes)

    def wrap(self, nodes):
        if self.o.html:
            return nodes
        root = El('root', XMLNS, nodes)
        if self.o.tal and self.o.names and self.s.flag(.1):
            root.put('tal', 'define', self.a_define())
            if self.s.flag(.5):
                root.put(None, self.s.choice(ATTRS), self.attr_text())
        return [root]

    def library(self):
        """Macro documents plus a page: [nodes, ...], page last."""
        s = self.s
        n = s.int(1, self.o.macros)
        self.macro_names = s.sample(ODD_MACROS, n, n) if self.odd else [
            'm%d' % i for i in range(n)]
        self.macro_slots = [None] * n
        els = [None] * n
        for i in reversed(range(n)):
            els[i] = self.macro_el(i)
        ndocs = s.int(1, 2)
        docs = [[] for _ in range(ndocs + 1)]
        for el in els:
            nodes = [el] + s.many(self.raw, 0, 1)
            if self.o.i18n and s.flag(.15):
                # what is in force around a macro definition
                nodes = [El('div' if self.o.html else 'c', [
                    ('i18n', 'domain', s.choice(DOMAINS))], nodes)]
            docs[s.draw(ndocs + (not self.o.libonly))] += nodes
        self.left = max(self.left, self.o.maxel // 2)
        page = self.nodes(0, Cx(), 2)
        docs[-1] = docs[-1] + page if s.flag(.8) else page + docs[-1]
        return [self.wrap(d) for d in docs]


def walk_el(nodes):
    for n in nodes:
        if type(n) is El:
            yield n
            yield from walk_el(n.kids)
