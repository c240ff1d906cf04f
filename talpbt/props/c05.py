"""Inserted text never becomes markup."""
from html.parser import HTMLParser
from xml.parsers import expat

from zope.i18nmessageid import Message

from ..core import Violation
from ..engine import Runtime
from ..infoset import events
from ..gen import BOOLS
from ..gen import NASTY
from ..gen import SPACE
from ..real import compile_template
from ..real import render
from ..tmpl import NS_URI
from ..tmpl import esc_attr

ID = 'C05'
LEVEL = 'exploration'
CASES = {'quick': 200000, 'thorough': 4000000}
RULE = ('a case is a template with one to six text insertion points (content, '
        'replace, attributes, error handlers, named parts of translations, '
        'translated values and attributes, message objects; in loops, macros '
        'and slots) and one hostile string per point.  It is rendered once '
        'with plain words and once with the strings; both outputs are parsed '
        'by a separate parser (html.parser / expat) and the parse results '
        'must be equal up to replacing each word by its string.  '
        'Non-trivial: a string contains a character special to markup; '
        'distinct by source and strings')
ASSUMPTIONS = [
    'html.parser and expat parse the output as a browser would',
    'in XML, strings contain no control characters; white space at the ends '
    'of lines is not judged beyond what the parsers report',
    'white space of a named part of a translation is collapsed, white space '
    'in XML attributes is compared after the normalisation XML prescribes']
PROBES = {}

PIECES = NASTY + SPACE + ['</p>', '</title>', '</script>', '" onclick="x', "' x='",
                          '<img src=x>', '&#x27;', '&#0;', '&apos;', '&amp;amp;',
                          'http://x/?a=1&b=2&lt=3', '&ltx', '&#38', '-', '--',
                          '<br/>', '<tal:x>', '?>', '&quot', '\xa0', '​',
                          'javascript:', '<a href="', '\x7f', '\x0c', '&Lt;',
                          '<p', '<', '&']


class Tree(HTMLParser):
    """Everything html.parser reports, text merged."""

    CDATA_CONTENT_ELEMENTS = ()
    RCDATA_CONTENT_ELEMENTS = ()

    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(('start', tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.ev.append(('empty', tag, tuple(attrs)))

    def handle_endtag(self, tag):
        self.ev.append(('end', tag))

    def handle_data(self, data):
        if self.ev and self.ev[-1][0] == 'text':
            data = self.ev.pop()[1] + data
        self.ev.append(('text', data))

    def handle_comment(self, data):
        self.ev.append(('comment', data))

    def handle_decl(self, data):
        self.ev.append(('decl', data))

    def handle_pi(self, data):
        self.ev.append(('pi', data))

    def unknown_decl(self, data):
        self.ev.append(('marked', data))


def parse(html, text):
    if html:
        t = Tree()
        t.feed(text)
        t.close()
        return t.ev
    return events('<root>%s</root>' % text)


class Points:
    def __init__(self, src, html):
        self.s = src
        self.html = html
        self.words = {}         # word -> hostile text
        self.data = []          # per value: function of a substitution
        self.kinds = set()
        self.unit = 0

    def hostile(self, collapse=False, may_be_empty=True):
        s = self.s
        t = ''.join(s.many(lambda: s.choice(PIECES), 1, 6, .65))
        if s.flag(.02):
            t *= s.int(20, 300)
        if not self.html:
            t = ''.join(c for c in t if c >= ' ' or c in '\n\t')
            # (which leaves out what its parsers normalise)
        if self.html:
            t = t.replace('\x0c', ' ')
            if s.flag(.1):
                t += s.choice(['\0', '\x1b', '\x7f', '\ufeff', '\0x'])
        if collapse or self.unit:
            t = ' '.join(t.split())
        if self.unit:
            # would be a placeholder of the surrounding message
            t = t.replace('$', '§')
        may_be_empty = may_be_empty and not self.unit
        if not t or may_be_empty and s.flag(.04):
            return '' if may_be_empty else '<'
        return t

    def word(self, collapse=False, may_be_empty=True):
        w = 'Wq%dz' % len(self.words)
        self.words[w] = self.hostile(collapse, may_be_empty)
        return w

    def value(self, collapse=False, may_be_empty=True):
        """Expression for a text value: plain, number-like or a message."""
        s = self.s
        w = self.word(collapse, may_be_empty)
        k = s.draw(8)
        if k == 1:
            self.kinds.add('message')
            f = lambda t: Message(t[w], domain='d')  # noqa: E731
        elif k == 2:
            self.kinds.add('message default')
            f = lambda t: Message('unk', domain='d',  # noqa: E731
                                  default=t[w])
        elif k == 3:
            self.kinds.add('message mapping')
            f = lambda t: Message('unk ${v}', domain='d',  # noqa: E731
                                  default='v=${v}', mapping={'v': t[w]})
        elif k == 4:
            self.kinds.add('object')
            f = lambda t: Text(t[w])  # noqa: E731
        else:
            f = lambda t: t[w]  # noqa: E731
        self.data.append(f)
        return 'data:%d' % (len(self.data) - 1)

    def attrs(self, tag='b'):
        """Attributes, some with replacements."""
        s = self.s
        names = s.sample(['title', 'class', 'href', 'value', 'alt'], 1, 3, .4)
        out = []
        repl = []
        xlat = []
        for n in names:
            k = s.draw(6)
            if k < 3:
                out.append('%s="static"' % n)
            if k < 5:
                repl.append(n + ' ' + self.value())
                self.kinds.add('attribute')
                if s.flag(.2):
                    xlat.append(n)
                    self.kinds.add('translated attribute')
        if self.html and s.flag(.2):
            # the text only decides presence
            repl.append(s.choice(BOOLS) + ' '
                        + self.value(may_be_empty=False))
            self.kinds.add('boolean attribute')
        if repl:
            out.append('tal:attributes="%s"' % '; '.join(repl))
        if xlat:
            out.append('i18n:attributes="%s"' % ';'.join(xlat))
        if s.flag(.3):
            out.reverse()
        return ''.join(' ' + a for a in out)

    def node(self, depth):
        s = self.s
        k = s.draw(16)
        tag = s.choice(['b', 'div', 'span', 'em', 'a'])
        if k < 3 and s.flag(.2):
            tag = s.choice(['title', 'textarea', 'option'])
        if not self.html and s.flag(.05):
            tag = s.choice(['script', 'style', 'pre'])
        elif s.flag(.03):
            # an element without text before it
            tag2 = s.choice(['script', 'style', 'title', 'pre'])
            return '<%s%s></%s>%s' % (tag2, self.attrs(), tag2,
                                      self.node(depth))
        at = self.attrs() if s.flag(.4) else ''
        if k < 3:
            self.kinds.add('content')
            return '<%s%s tal:content="%s">d</%s>' % (
                tag, at, self.value(), tag)
        if k == 3:
            self.kinds.add('text keyword')
            return '<%s tal:content="text %s"/>' % (tag, self.value())
        if k == 4:
            self.kinds.add('replace')
            return '<%s tal:replace="%s"/>' % (tag, self.value())
        if k == 5:
            self.kinds.add('on-error')
            return '<%s%s tal:on-error="%s" tal:content="err:0">d</%s>' % (
                tag, '', self.value(), tag)
        if k == 6:
            self.kinds.add('translated content')
            return '<%s%s tal:content="%s" i18n:translate="">d</%s>' % (
                tag, at, self.value(), tag)
        if k == 7 and not self.unit:
            self.kinds.add('named part')
            self.unit += 1
            n = '<%s i18n:name="n" tal:content="%s"/>' % (
                tag, self.value(True))
            m = '<i i18n:name="o" tal:replace="%s"/>' % self.value(True)
            self.unit -= 1
            return '<%s%s i18n:translate="">x %s y %s</%s>' % (
                tag, at, n, m, tag)
        if k == 8 and not self.unit:
            self.kinds.add('inside a message')
            self.unit += 1
            n = self.node(depth + 1)
            self.unit -= 1
            return '<%s i18n:translate="%s">x %s</%s>' % (
                tag, s.choice(['', 'unk', '']), n, tag)
        if k == 9:
            self.kinds.add('void')
            return '<%s%s/>' % (s.choice(['br', 'img', 'input']),
                                self.attrs())
        if k == 10 and depth < 3:
            self.kinds.add('loop')
            return '<%s tal:repeat="i %s">%s</%s>' % (
                tag, 'seq:', self.node(depth + 1), tag)
        if k == 11:
            self.kinds.add('variable')
            return '<%s tal:define="v %s" tal:content="var:v"%s/>' % (
                tag, self.value(), at)
        if k == 12 and depth < 3:
            self.kinds.add('handled block')
            return '<%s tal:on-error="str:e">%s</%s>' % (
                tag, self.node(depth + 1), tag)
        if k == 13 and depth < 3:
            self.kinds.add('omitted tag')
            return '<%s tal:omit-tag=""%s>%s</%s>' % (
                tag, at, self.node(depth + 1), tag)
        if k == 14:
            self.kinds.add('literal')
            # text that is part of the template itself
            w = self.word()
            return '<%s%s tal:content="str:\0%s\0">d</%s>' % (tag, at, w, tag)
        return '<%s%s>%s</%s>' % (tag, at, self.node(depth + 1)
                                  if depth < 3 else 't', tag)


class Text:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class RT(Runtime):
    def value(self, expr):
        if expr == 'seq:':
            return [1, 2]
        return Runtime.value(self, expr)


def subst(x, table):
    if isinstance(x, str):
        for w, t in table.items():
            if w in x:
                x = x.replace(w, t)
        return x
    if isinstance(x, tuple):
        return tuple(subst(y, table) for y in x)
    return x


def wsnorm(x, html):
    """White space in XML attribute values."""
    if html or x[0] != 'start':
        return x
    return x[:2] + (tuple((n, ''.join(' ' if c in '\n\t' else c for c in v))
                          for n, v in x[2]),)


def merged(events):
    """Without empty texts."""
    out = []
    for e in events:
        if e[0] == 'text':
            if not e[1]:
                continue
            if out and out[-1][0] == 'text':
                e = ('text', out.pop()[1] + e[1])
        out.append(e)
    return out


def case(src, ctx):
    html = not src.flag(.4)
    p = Points(src, html)
    body = ' '.join(src.many(lambda: p.node(0), 1, 3, .5))
    macro = src.flag(.2)
    if macro:
        p.kinds.add('macro')
        body = ('<u metal:define-macro="m"><s metal:define-slot="s"/>%s</u>'
                '<v metal:use-macro="mac:m"><w metal:fill-slot="s">%s</w></v>'
                % (p.node(1), body))
    if not html:
        body = '<root%s>%s</root>' % (''.join(
            ' xmlns:%s="%s"' % kv for kv in NS_URI.items()), body)
    plain = {w: w for w in p.words}
    ctx.show(source=body.replace('\0', ''), strings=p.words)
    for k in p.kinds:
        ctx.label(k)
    ctx.label('html' if html else 'xml')

    def run(table):
        t = body
        for w in p.words:
            t = t.replace('\0%s\0' % w, esc_attr(table[w]))
        program, macros = compile_template(t, html)
        rt = RT([f(table) for f in p.data], macros=macros)
        rt.markup = False
        return render(program, macros, rt, wrap=0)

    words = p.words
    if not html:
        # literals are subject to attribute normalisation when compiled
        for w in words:
            if '\0%s\0' % w in body:
                words[w] = ''.join(' ' if c in '\n\t' else c
                                   for c in words[w])
    base = parse(html, run(plain))
    out = run(words)
    try:
        got = parse(html, out)
    except expat.ExpatError as e:
        raise Violation('output is not well-formed (%s): %r' % (e, out))
    want = merged(wsnorm(subst(x, words), html) for x in base)
    got = [wsnorm(x, html) for x in got]
    if got != want:
        i = 0
        while i < min(len(want), len(got)) and want[i] == got[i]:
            i += 1
        raise Violation('output %r\nparses with %r where %r should be'
                        % (out, got[i:i + 3], want[i:i + 3]))
    if words and any(set(t) & set('<>&"\'') for t in words.values()):
        ctx.nontrivial((body, sorted(words.items())),
                       {'source': body, 'strings': words, 'output': out})


