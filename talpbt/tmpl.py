"""Template AST, its serialisation to HTML / XML source, and source positions."""

NS_URI = {
    'tal': 'http://xml.zope.org/namespaces/tal',
    'metal': 'http://xml.zope.org/namespaces/metal',
    'i18n': 'http://xml.zope.org/namespaces/i18n',
}


class Raw:
    """Source text that must reach the output unchanged: character data (with
    its entity references), comments, processing instructions, CDATA."""
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


class El:
    """An element.

    items: ordered (ns, name, value); ns None = ordinary attribute, 'xmlns' =
    a namespace declaration of one of the three template namespaces, otherwise
    the namespace of a directive.  value None = minimised HTML attribute.
    upper: directives are spelled in upper case (HTML only).
    close: 'full' (<a></a>), 'self' (<a/>), 'void' (<img>, HTML only).
    """
    __slots__ = ('tag', 'nstag', 'bare', 'items', 'kids', 'close', 'pos',
                 'file', 'inert', 'quote', 'upper', 'extra')

    def __init__(self, tag, items=(), kids=(), close='full', nstag=None,
                 bare=False):
        self.tag = tag
        self.nstag = nstag
        self.bare = bare
        self.items = list(items)
        self.kids = list(kids)
        self.close = close
        self.pos = None
        self.file = None
        self.inert = False
        self.quote = '"'
        self.upper = False
        self.extra = None

    def get(self, ns, name, default=None):
        for n, k, v in self.items:
            if n == ns and k == name:
                return v
        return default

    def has(self, ns, name):
        for n, k, v in self.items:
            if n == ns and k == name:
                return True
        return False

    def any_ns(self, ns):
        for n, k, v in self.items:
            if n == ns:
                return True
        return False

    def put(self, ns, name, value):
        self.items.append((ns, name, value))

    @property
    def directive(self):
        """Does the element carry (or is it) template markup?"""
        return bool(self.nstag) or any(
            n in ('tal', 'metal', 'i18n') for n, k, v in self.items)


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def esc_attr(s):
    return esc_text(s).replace('"', '&quot;')


def src_attr(s, q='"'):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if q == '"':
        return s.replace('"', '&quot;')
    return s.replace("'", '&#39;')


def qname(el, prefixes):
    if el.nstag:
        return f'{prefixes[el.nstag]}:{el.tag}'
    return el.tag


def item_name(el, ns, name, prefixes):
    """Source spelling of an attribute."""
    if ns in ('tal', 'metal', 'i18n'):
        if el.nstag == ns and el.bare:
            return name
        return f'{prefixes[ns]}:{name}'
    return name


DEFAULT_PREFIXES = {'tal': 'tal', 'metal': 'metal', 'i18n': 'i18n'}


class Writer:
    def __init__(self, file=None, prefixes=None):
        self.parts = []
        self.line = 1
        self.col = 0
        self.file = file
        self.prefixes = prefixes or DEFAULT_PREFIXES

    def w(self, s):
        self.parts.append(s)
        n = s.count('\n')
        if n:
            self.line += n
            self.col = len(s) - s.rfind('\n') - 1
        else:
            self.col += len(s)

    def nodes(self, nodes):
        for n in nodes:
            if type(n) is Raw:
                self.w(n.text)
            else:
                self.el(n)

    def el(self, el):
        el.pos = (self.line, self.col)
        el.file = self.file
        name = qname(el, self.prefixes)
        if el.upper and el.nstag:
            name = name.upper()
        q = el.quote
        out = ['<', name]
        for ns, k, v in el.items:
            k = item_name(el, ns, k, self.prefixes)
            if el.upper and ns:
                k = k.upper()
            if v is None:
                out.append(' ' + k)
            else:
                out.append(f' {k}={q}{src_attr(v, q)}{q}')
        self.w(''.join(out))
        if el.close == 'self':
            self.w('/>' if not el.items or el.items[-1][2] is not None
                   else ' />')
        elif el.close == 'void':
            self.w('>')
        else:
            self.w('>')
            self.nodes(el.kids)
            self.w(f'</{name}>')

    def value(self):
        return ''.join(self.parts)


def serialise(nodes, file=None, prefixes=None):
    w = Writer(file, prefixes)
    w.nodes(nodes)
    return w.value()


def walk(nodes):
    for n in nodes:
        if type(n) is El:
            yield n
            yield from walk(n.kids)


def count_directives(nodes):
    return sum(1 for e in walk(nodes) for ns, k, v in e.items
               if ns in ('tal', 'metal', 'i18n'))
