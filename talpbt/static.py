"""Documents without template markup, with their expected rendering."""
import re

INLINE = ['b', 'i', 'em', 'a', 'span', 'code', 'label', 'u', 'x-foo', 'svg',
          'svg:rect', 'o:p', 'font', 'button', 'tt', 'h', 'pp', 'talx', 'embed',
          'wbr', 'source', 'track', 'keygen', 'command', 'object', 'image']
FLOW = ['div', 'blockquote', 'section', 'form', 'pre', 'nav', 'center',
        'fieldset', 'article', 'metalx', 'html', 'body', 'head', 'noframe']
RAWTEXT = ['script', 'style', 'script', 'style', 'xmp', 'iframe', 'noembed',
           'noframes']
RCDATA = ['title', 'textarea']
VOID = ['base', 'meta', 'link', 'hr', 'br', 'param', 'img', 'area', 'input',
        'col', 'basefont', 'isindex', 'frame']
HEADS = ['p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6']
ATTRS = ['class', 'id', 'title', 'href', 'data-x', 'xml:lang', 'x.y', '@click',
         ':bind', 'v-on:click', 'tal-content', 'metal', 'i18n', 'checked',
         'selected', 'onclick', 'xmlns', 'o:x', 'talx:content', 'style', 'type',
         '_u', 'attr1', 'é', 'content', 'replace']
TEXT = [' ', 'one', 'two words', '\n', '\n   ', '\t', '&amp;', '&lt;', '&gt;',
        '&#65;', '&#x41;', '&#X1f;', '&nbsp;', '&copy;', '&nosuch;', '&a1;',
        ' < ', ' & ', '<3', '<=', '&&  ', '>', '"', "'", '=', 'é', '日本', '😀',
        '\r\n', '${x}', '$', '%s', '{0}', '\\', ']]>', '--', '-->', ' ',
        '\xa0', '\x0c', 'tal:content="x"', '/>', ' x="y" ', '&amp;lt;',
        '&quot;', '?>', ';', ' ', '\x0b', '\0', '\x1f', '\x7f', '\ufeff',
        '\u2028', '\u200b', '\u202e', '\x85']
COMMENT = ['', ' ', 'x', '\r\n', '\r', '\t ', 'a<b>', '&', '&amp;', '"', "'", '\n', '-', ' - ', '>',
           '<p>', '[if IE]>', 'é', '<!', '?', ']]>', '</p>', ' tal:replace="x" ',
           '--', ' -- ', '--x', '\0', '<!--', '--!']
SCRIPT = ['', 'x', '\n', '<b>', '</b>', '&amp;', '&', '<', '>', '"', "'",
          'if (a<b && c>d)', '<!--', '-->', '// <x y="z">', '</', '<![CDATA[',
          ']]>', '<br/>', '</br>', '\t', ' = ', '${x}', '<p>', 'é', "'</p>'",
          '</scrip>', '<?x?>', '\0', '\u2028']
VALUE = ['', 'x', 'one two', '<', '>', '&', '"', "'", ' ', '\n', '\t', '=', '/',
         'a=b', '<b>', '</b>', '-->', '; ', 'é', '日', '${x}', '%s', '{', '`',
         '?a=1&b', '\\', '😀', '>>', ']]>', '\xa0', ';;', '\r\n', '(1)', '+',
         '&lt', '&#', '&#6', '&#xF', '&#X', '&q1', '&a-b;', '&#z;', '&;',
         '&#12a', '&#12A', '&#6G;',
         '&#x1g', '&#7;', '&#xAg;', '&a1', '&amp', '6;', '\0', '\x1f', '\x7f', '\u2028', '\u200b']
DOCTYPE = ['<!DOCTYPE html>', '<!doctype HTML>',
           '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" '
           '"http://www.w3.org/TR/html4/strict.dtd">',
           '<!DOCTYPE html SYSTEM "about:legacy-compat">']
PI = ['<?php echo 1 ?>', '<?x?>', '<?xml version="1.0"?>', '<?y z="a&b">',
      '<?a\nb?>', "<?python x<1 ?>", '<?z >', '<?w\t>', '<?v a="b" ? >', '<?u\r\n>']
MARKED = ['<![CDATA[x]]>', '<![CDATA[]]>', '<![CDATA[a<b>&amp;]]>',
          '<![if !IE]>', '<![endif]>', '<![else]>', '<![IGNORE[x]]>',
          '<![INCLUDE[ ]]>']


reference = re.compile(
    '&(?=[A-Za-z][A-Za-z0-9]*;|#[0-9]+;|#[xX][0-9A-Fa-f]*;)')


def mixed_case(src, s):
    if src.flag(.85):
        return s
    return ''.join(c.upper() if src.flag(.5) else c for c in s)


def clean(v):
    """No complete references: see KNOWN_FINDINGS, escaped-entity."""
    return reference.sub('+', v)


def canonical(v):
    return (v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            .replace('"', '&quot;'))


NAMED = {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', 'é': '&eacute;',
         '\xa0': '&nbsp;'}


class StaticHTML:
    """Generates pairs (source, expected output)."""

    def __init__(self, src, maxel=14, text=TEXT):
        self.s = src
        self.left = maxel
        self.out = []       # source
        self.exp = []       # expected
        self.kinds = set()
        self.pool = text

    def w(self, source, expected=None):
        self.out.append(source)
        self.exp.append(source if expected is None else expected)

    def ref(self, c):
        """Some spelling of one character as a reference."""
        k = self.s.draw(4)
        if k == 0 and c in NAMED:
            return NAMED[c]
        if k == 1:
            return '&#x%x;' % ord(c)
        if k == 2:
            return '&#X%X;' % ord(c)
        return '&#%d;' % ord(c)

    def attr(self, name):
        s = self.s
        spelled = mixed_case(s, name)
        k = s.draw(12)
        if k == 1:
            self.kinds.add('valueless attribute')
            return spelled, name
        v = clean(''.join(s.many(lambda: s.choice(VALUE), 0, 4, .5)))
        if s.flag(.03):
            v = name
        eq = s.choice(['=', '=', '=', ' = ', '=\n', ' ='])
        exp = f'{name}="{canonical(v)}"'
        plain = v and not set(v) & set('"\'=<>`/\\') and not any(
            c.isspace() for c in v)
        if plain and k == 2:
            self.kinds.add('unquoted attribute')
            w = v.replace('&', '&amp;')
            return spelled + '=' + w, exp
        q = '"' if s.flag(.7) else "'"
        body = []
        for i, c in enumerate(v):
            if c == q or c == '&' and (v[i + 1:i + 2] or 'a') != ' ' \
                    or s.flag(.08) and c.isprintable():
                body.append(self.ref(c))
                self.kinds.add('reference in attribute')
            else:
                body.append(c)
        return f'{spelled}{eq}{q}{"".join(body)}{q}', exp

    def tag(self, name, end=''):
        """Start tag; end is '' or '/'."""
        s = self.s
        src = '<' + mixed_case(s, name)
        exp = '<' + name
        names = s.sample(ATTRS, 0, 5, .4)
        if names and s.flag(.06):
            names.append(s.choice(names))
            self.kinds.add('repeated attribute')
        for a in names:
            x, y = self.attr(a)
            src += s.choice([' ', ' ', ' ', '\n ', '\t', '  ']) + x
            exp += ' ' + y
        if end:
            src += ' /' if src[-1] not in '"\'' or s.flag(.5) else '/'
        elif s.flag(.1):
            src += s.choice([' ', '\n'])
        self.w(src + '>', exp + (' />' if end else '>'))

    def endtag(self, name):
        s = self.s
        self.w('</' + mixed_case(s, name) + s.choice(['', '', '', ' ', '\n'])
               + '>', '</%s>' % name)

    def el(self, name, content):
        self.left -= 1
        self.tag(name)
        content()
        self.endtag(name)

    def text(self):
        s = self.s
        self.w(''.join(s.many(lambda: s.choice(self.pool), 1, 5, .5)))

    def misc(self):
        s = self.s
        k = s.draw(9)
        if k <= 2:
            t = ''.join(s.many(lambda: s.choice(COMMENT), 0, 4, .5))
            t = t.lstrip('>-').replace('-->', '- >').replace('--!>', '- >')
            while t.endswith(('-', '--!')):
                t = t[:-1]
            self.w('<!--%s-->' % t)
            self.kinds.add('comment')
        elif k == 3:
            self.w(s.choice(PI))
            self.kinds.add('processing instruction')
        elif k == 4:
            self.w(s.choice(MARKED))
            self.kinds.add('marked section')
        elif k == 5:
            self.w(s.choice(DOCTYPE))
            self.kinds.add('doctype')
        else:
            name = s.choice(RAWTEXT + RCDATA)
            self.left -= 1
            self.tag(name)
            pool = self.pool if name in RCDATA else SCRIPT
            self.w(''.join(s.many(lambda: s.choice(pool), 0, 5, .6)))
            self.endtag(name)
            self.kinds.add(name)

    def inline(self, depth=0):
        s = self.s
        n = 0
        while n < 5 and s.flag(.6):
            n += 1
            k = s.draw(10)
            if k < 5 or self.left <= 0 or depth > 7:
                self.text()
            elif k < 8:
                self.el(s.choice(INLINE), lambda: self.inline(depth + 1))
            elif k == 8:
                self.leaf()
            else:
                self.misc()

    def leaf(self, more=()):
        s = self.s
        self.left -= 1
        if s.flag(.3):
            self.kinds.add('self-closed element')
            self.tag(s.choice(INLINE + list(more)), '/')
        else:
            self.kinds.add('void element')
            self.tag(s.choice(VOID), '/' if s.flag(.4) else '')

    def flow(self, depth=0):
        s = self.s
        n = 0
        while n < 6 and (s.flag(.65) or not depth and not n):
            n += 1
            k = s.draw(16)
            d = depth + 1
            if k < 4 or self.left <= 0 or depth > 7:
                self.text()
            elif k < 7:
                self.el(s.choice(FLOW), lambda: self.flow(d))
            elif k < 9:
                self.el(s.choice(HEADS), lambda: self.inline(d))
            elif k == 9:
                self.el(s.choice(['ul', 'ol']), lambda: self.items(d, ['li']))
            elif k == 10:
                self.el('dl', lambda: self.items(d, ['dt', 'dd']))
            elif k == 11:
                self.el('table', lambda: self.table(d))
            elif k == 12:
                self.el(s.choice(INLINE), lambda: self.inline(d))
            elif k == 13:
                self.leaf(FLOW + ['script', 'title', 'p', 'table'])
            else:
                self.misc()

    def items(self, d, names):
        self.kinds.add('list')
        for i in range(self.s.count(0, 3)):
            self.el(self.s.choice(names), lambda: self.flow(d + 1))
            if self.s.flag(.4):
                self.w('\n')

    def rows(self, d):
        for i in range(self.s.count(0, 2)):
            self.el('tr', lambda: self.items(d + 1, ['td', 'th']))

    def table(self, d):
        self.kinds.add('table')
        s = self.s
        if s.flag(.4):
            self.el(s.choice(['thead', 'tbody', 'tfoot']),
                    lambda: self.rows(d + 1))
        else:
            self.rows(d)

    def document(self):
        if self.s.flag(.2):
            self.w(self.s.choice(DOCTYPE))
            self.kinds.add('doctype')
        self.flow()
        return ''.join(self.out), ''.join(self.exp)
