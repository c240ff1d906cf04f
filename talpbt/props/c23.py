"""Statement arguments are split and parsed as documented."""
import re

from . import common
from ..core import Violation
from ..engine import Compiled
from ..engine import Engine
from ..engine import Runtime
from ..harness import diff_text
from ..real import compile_template
from ..real import render
from ..tmpl import NS_URI

ID = 'C23'
LEVEL = 'exploration'
CASES = {'quick': 350000, 'thorough': 3000000}
RULE = ('a case is one element (HTML or XML) whose statements are written '
        'from generated names, keywords and arbitrary expression texts with '
        'arbitrary white space and separators; the compiled expressions, the '
        'way each is evaluated, the variables set and the attributes '
        'produced are compared with the parts it was written from.  '
        'Non-trivial: a semicolon, keyword or keyword look-alike, line break '
        'or several parts; distinct by source')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'white space at either end of an expression is not significant',
]
PROBES = {}

NAME = re.compile(r'[a-zA-Z_][-a-zA-Z0-9_]*')
NAMES = ['a', 'b', 'x1', '_q', 'a-b', 'A_B', 'text', 'structure', 'globals',
         'local-x', 'globalx', 'locality', 'Z9', '__', 'not', 'string']
HEADS = ['text', 'structure', 'texts', 'structured', 'text/x', 'structure:',
         'text;', 'structure;', 'global', 'local', 'globals', 'Text',
         'STRUCTURE', 'text-x', 'text.', 'default', 'nothing', 'string:',
         'python:', 'not:', 'path:a/b', 'a', '-', '|', '(', 'é']
CHARS = ['a', 'Z', '0', '_', ';', ';;', ';;;', ' ', '  ', '; ', ' ;', '"',
         "'", '<', '>', '&', '&amp;', '&lt;', '&#59;', '$', '${x}', '%s', '\\',
         '{', '}', '|', '/', ':', '=', '\n', '\t', '\n  ', '\r\n', 'é', '日',
         '😀', '?', '(a, b)', '[0]', "'a;b'", 'text ', 'structure ',
         'global ', 'local ', '\\;', '!', '~', '`', '--', '@', '#']
HCHARS = CHARS + ['\0', '\0;', '\x01', '\x0c', '\x0b', '\x1f', '\x7f']
ATTRS = ['title', 'class', 'x', 'data-a.b', 'xml:lang', 'a:b', 'text',
         'structure', 'global', 'href', 'é', 'a_b', 'checked', '-']


class Probe(Runtime):
    """Logs everything; each value is marked with the number of its
    expression."""

    def __init__(self, exprs):
        Runtime.__init__(self)
        self.exprs = exprs
        self.log = []

    def mark(self, expr):
        expr = expr.strip()
        return 'v%d' % self.exprs.index(expr) if expr in self.exprs \
            else '?' + expr

    def note(self, kind, expr):
        m = self.mark(expr)
        self.log.append((kind, m))
        return m


class Logging(Engine):
    fail = None

    def compile(self, expr):
        self.rt.compiled.append(expr)
        return Compiled(expr)

    def setLocal(self, name, value):
        if name not in ('attrs', 'error'):
            self.rt.log.append(('local', name, value))

    def setGlobal(self, name, value):
        self.rt.log.append(('global', name, value))

    def getValue(self, name, default=None):
        return default

    def evaluate(self, c):
        m = self.rt.note('value', c.expr)
        return {'k': m} if m == self.rt.map else m

    evaluateValue = evaluate

    def evaluateBoolean(self, c):
        m = self.rt.note('boolean', c.expr)
        return m != self.rt.false

    def evaluateText(self, c):
        m = self.rt.note('text', c.expr)
        if m == self.rt.fail:
            raise ValueError(m)
        return m

    def evaluateStructure(self, c):
        m = self.rt.note('structure', c.expr)
        if m == self.rt.fail:
            raise ValueError(m)
        return m

    def setRepeat(self, name, c):
        m = self.rt.note('repeat', c.expr)
        return Loop(self, name, m)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.rt.log.append(('translate', str(msgid), mapping))
        return 'T'


class Loop:
    def __init__(self, engine, name, value):
        self.args = engine, name, value
        self.left = 1

    def __next__(self):
        if not self.left:
            return False
        self.left = 0
        engine, name, value = self.args
        engine.setLocal(name, value)
        return True


def expression(src, html):
    """Text without white space at either end."""
    pool = HCHARS if html and src.flag(.2) else CHARS
    head = src.choice(HEADS) if src.flag(.5) else ''
    t = (head + ''.join(src.many(lambda: src.choice(pool), 0 if head else 1,
                                 6, .7))).strip()
    if not html:
        t = ''.join(c for c in t if c >= ' ' or c in '\t\n\r')
    return t or 'e'


def keyword(expr, words):
    """Does the text begin with one of the words as a whole word?"""
    for w in words:
        if expr.startswith(w) and expr[len(w):len(w) + 1].isspace():
            return True
    return False


class Build:
    def __init__(self, src, html):
        self.src = src
        self.html = html
        self.exprs = []
        self.hard = False

    def ws(self, lo=0):
        s = self.src
        pool = [' ', '\n', '\t', '  ', '\n    ', '\r\n']
        if self.html:
            pool += ['\x0c']
        if not s.flag(.4):
            return ' ' * lo
        t = ''.join(s.many(lambda: s.choice(pool), lo, 3, .5))
        if '\n' in t:
            self.hard = True
        return t

    def expr(self, *bad):
        """A new expression text that does not begin with a keyword."""
        e = expression(self.src, self.html)
        while e in self.exprs or keyword(e, bad):
            e = '_' + e
        if ';' in e or '\n' in e or keyword(
                e + ' ', ('text', 'structure', 'global', 'local')):
            self.hard = True
        self.exprs.append(e)
        return e, 'v%d' % (len(self.exprs) - 1)

    def join(self, parts, double=True):
        s = self.src
        if double:
            parts = [p.replace(';', ';;') for p in parts]
        if len(parts) > 1:
            self.hard = True
        out = self.ws() + parts[0]
        for p in parts[1:]:
            # a separator must not touch a semicolon of an expression
            gap = self.ws()
            if out.endswith(';') and not gap:
                gap = ' '
            out += gap + ';' + (self.ws() or (
                ' ' if p.startswith(';') else ''))
            out += p
        if s.flag(.3):
            self.hard = True
            out += (' ' if out.endswith(';') else '') + ';'
        return out + self.ws()

    def define(self):
        s = self.src
        log = []

        def part():
            key = s.choice(['', '', 'local', 'global'])
            name = s.choice(NAMES + (['global', 'local'] if key else []))
            e, m = self.expr()
            if not key and name in ('global', 'local'):
                key = 'local'
            log.append(('value', m))
            log.append((key or 'local', name, m))
            return ((key and key + (self.ws(1))) + name + self.ws(1) + e)
        return self.join(s.many(part, 1, 4, .6)), log

    def attributes(self):
        s = self.src
        names = s.sample([a for a in ATTRS if self.html or
                          ':' not in a or a == 'xml:lang'], 1, 4, .6)
        if self.html:
            # boolean attributes have no visible value
            names = [n for n in names if n != 'checked'] or ['x']
        want = {}
        parts = []
        for n in names:
            e, m = self.expr()
            if self.html and s.flag(.1):
                n = n.upper()
            want[n.lower() if self.html else n] = m
            parts.append(n + self.ws(1) + e)
        return self.join(parts), want

    def subst(self):
        """(argument, kind, mark)"""
        key = self.src.choice(['', '', 'text', 'structure'])
        e, m = self.expr(*(() if key else ('text', 'structure')))
        if key:
            self.hard = True
        return (self.ws() + key + (self.ws(1) if key else '') + e
                + self.end(e, key), key or 'text', m)

    def end(self, e, key=''):
        # a keyword followed by nothing but white space has no expression
        if not key and e in ('text', 'structure'):
            return ''
        return self.ws()


def spell(src, v, html):
    """Attribute value source."""
    out = []
    for ch in v:
        if ch == '&':
            ch = '&amp;'
        elif ch == '<':
            ch = '&lt;'
        elif ch == '"':
            ch = '&quot;'
        elif ch in '\n\t\r' and not html:
            ch = '&#%d;' % ord(ch)
        elif ch == ';' and src.draw(8) == 1:
            ch = '&#59;'
        out.append(ch)
    return ''.join(out)


def case(src, ctx):
    html = not src.flag(.35)
    b = Build(src, html)
    s = src
    items = []
    log = []
    attrs = {}
    false = None
    omit = False
    kind = s.freq([(4, 'content'), (2, 'replace'), (3, None)])
    handled = s.flag(.25)
    if s.flag(.6):
        v, defs = b.define()
        items.append(('tal:define', v))
        log += defs
    if s.flag(.2):
        e, m = b.expr()
        items.append(('tal:condition', b.ws() + e + b.ws()))
        log.append(('boolean', m))
    if s.flag(.3):
        e, m = b.expr()
        name = s.choice(NAMES + ['global', 'local'])
        items.append(('tal:repeat', b.ws() + name + b.ws(1) + e + b.ws()))
        log.append(('repeat', m))
        log.append(('local', name, m))
    if kind != 'replace' and s.flag(.2):
        e, m = b.expr()
        items.append(('tal:omit-tag', b.ws() + e + b.ws()))
        log.append(('boolean', m))
        false = m
    if kind != 'replace' and s.flag(.6):
        v, attrs = b.attributes()
        items.append(('tal:attributes', v))
    trans = {}
    if kind is None and s.flag(.3):
        names = s.sample(['alt', 'lang', 'id', 'name'], 1, 3, .6)
        parts = []
        for n in names:
            if s.flag(.6):
                trans[n] = s.choice(['m-1', 'text', 'é', 'a.b', 'x%s'])
                parts.append(n + b.ws(1) + trans[n])
            else:
                trans[n] = 'static ' + n
                parts.append(n)
            items.append((n, 'static ' + n))
        items.append(('i18n:attributes', b.join(parts, False)))
    data = None
    if kind is None and s.flag(.3):
        e, data = b.expr('text', 'structure')
        items.append(('i18n:translate', 'msgid'))
        items.append(('i18n:data', b.ws() + e + b.end(e)))
    body = 'static'
    result = None
    if kind:
        v, how, m = b.subst()
        items.append(('tal:' + kind, v))
        result = (how, m)
    fail = None
    if handled and result:
        v, hhow, hm = b.subst()
        items.append(('tal:on-error', v))
        if s.flag(.6):
            fail = result[1]
    for i in range(len(items) - 1, 0, -1):
        j = s.draw(i + 1)
        items[i], items[j] = items[j], items[i]
    ns = '' if html else ''.join(
        f' xmlns:{k}="{v}"' for k, v in NS_URI.items())
    source = '<doc%s><a %s>%s</a></doc>' % (
        ns, ' '.join('%s="%s"' % (k, spell(s, v, html)) for k, v in items),
        body)
    ctx.show(mode='html' if html else 'xml', source=source,
             expressions=b.exprs)
    for k, v in items:
        ctx.label(k)
    # what must happen
    rt = Probe(b.exprs)
    rt.compiled = []
    rt.false = false
    rt.map = data
    rt.fail = fail
    engine = Logging(rt)
    program, macros = compile_template(source, html, None, engine)
    got = sorted({rt.mark(e) for e in rt.compiled})
    want = sorted('v%d' % i for i in range(len(b.exprs)))
    if got != want:
        raise Violation('expressions %r were compiled from %r' % (
            rt.compiled, b.exprs))
    del rt.log[:]
    out = render(program, macros, rt, engine, wrap=0)
    mark = sorted(('text', m) for m in attrs.values())
    full = list(log)
    if fail:
        end = [result, (hhow, hm)]
        text = hm
    elif result:
        end = [result]
        text = result[1]
    elif data:
        end = [('value', data)]
        text = 'T'
    else:
        end = []
        text = body
    logged = list(rt.log)
    translated = sorted((e[1], repr(e[2])) for e in logged
                        if e[0] == 'translate')
    wanted = [(m, '{}') for m in trans.values()]
    if data:
        wanted.append(('msgid', repr({'k': data})))
    logged = [e for e in logged if e[0] != 'translate']
    n = len(full)
    if (logged[:n] != full or sorted(logged[n:n + len(mark)]) != mark
            or logged[n + len(mark):] != end
            or translated != sorted(wanted)):
        raise Violation(
            'expected %r, attributes %r, then %r, translations %r\n'
            'got %r' % (full, mark, end, wanted, rt.log))
    if kind == 'replace' and not fail:
        shown = text
    else:
        attrib = {} if fail else dict(attrs, **{k: 'T' for k in trans})
        if fail:
            attrib = {}
        names = sorted(attrib)
        static = [k for k, v in items if k in trans]
        order = [k for k in static] + [k for k in names if k not in static]
        shown = '<a%s>%s</a>' % (''.join(
            ' %s="%s"' % (k, attrib[k]) for k in order), text)
    expected = '<doc>%s</doc>' % shown
    if out != expected:
        raise Violation('output: ' + diff_text(expected, out))
    if b.hard:
        ctx.nontrivial(source, {'source': source})
