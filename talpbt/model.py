"""Reference model: renders a template AST by walking it.

Written from the TAL / METAL / I18N documentation, over the generated tree; it
shares nothing with the code under test except the expression runtime, which is
the harness' own.
"""
import re

from zope.i18nmessageid import Message

from .engine import DEFAULT
from .engine import ErrorInfo
from .engine import TooBig
from .tmpl import DEFAULT_PREFIXES
from .tmpl import El
from .tmpl import Raw
from .tmpl import esc_attr
from .tmpl import esc_text
from .tmpl import item_name
from .tmpl import qname


BOOLEAN = frozenset('compact nowrap ismap declare noshade checked disabled '
                    'readonly multiple selected noresize defer'.split())

_ws = re.compile(r'\r?\n[ \t]*\Z')


class ModelLimit(Exception):
    """macro nesting limit reached"""


class ModelForeign(Exception):
    """use of a macro compiled for something else; the place of use"""


#: a macro without any content
EMPTY = object()


class Foreign:
    """Stands for such a macro."""


class Unspecified:
    def __repr__(self):
        return 'UNSPECIFIED'


UNSPECIFIED = Unspecified()    # what attrs is inside a structure value


class Frag:
    """A structure value: markup source with its tree."""

    def __init__(self, nodes, src):
        self.nodes = nodes
        self.src = src

    def __str__(self):
        return StrFrag(self.nodes, self.src)

    def inside(self, before, after):
        return StrFrag([Raw(before)] + list(self.nodes) + [Raw(after)],
                       before + self.src + after)


class StrFrag(str, Frag):
    """The same as a string."""

    def __new__(cls, nodes, src):
        self = str.__new__(cls, src)
        Frag.__init__(self, nodes, src)
        return self

    def __init__(self, *args):
        pass        # str() of a Frag gets here, too


def normalise(s):
    return ' '.join(s.split())


def split_parts(arg):
    """';' separates, ';;' is a literal semicolon (left to right)."""
    parts = ['']
    i = 0
    while i < len(arg):
        if arg[i] == ';':
            if arg[i + 1:i + 2] == ';':
                parts[-1] += ';'
                i += 2
                continue
            parts.append('')
        else:
            parts[-1] += arg[i]
        i += 1
    if len(parts) > 1 and not parts[-1].strip():
        parts.pop()
    return parts


def subst(arg):
    """'text' / 'structure' keyword and expression."""
    s = arg.lstrip()
    for kw in ('text', 'structure'):
        if s.startswith(kw) and s[len(kw):len(kw) + 1].isspace():
            return kw, s[len(kw):].lstrip()
    return 'text', s


class Prep:
    """Static facts about the elements of one document."""

    def __init__(self, nodes, html, macros=None, prefixes=None):
        self.html = html
        self.prefixes = prefixes or DEFAULT_PREFIXES
        self.macros = {} if macros is None else macros
        self.inuse = False
        self.slots = None
        self.nodes = self.children(nodes, ('default', None))

    def children(self, nodes, dom):
        out = []
        for n in nodes:
            if type(n) is Raw:
                if not n.text:
                    continue
                if out and type(out[-1]) is str:
                    out[-1] += n.text
                else:
                    out.append(n.text)
            else:
                x = self.element(n, dom)
                if n.has('tal', 'repeat') and out and type(out[-1]) is str:
                    m = _ws.search(out[-1])
                    if m:
                        x['ws'] = m.group()
                        out[-1] = out[-1][:m.start()]
                        if not out[-1]:
                            out.pop()
                out.append(n)
        return out

    def element(self, el, dom):
        x = {'ws': ''}
        el.extra = x
        x['i18nany'] = el.any_ns('i18n')
        x['scope'] = bool(el.nstag) or el.any_ns('tal') or x['i18nany']
        own = el.get('i18n', 'domain')
        # lexical translation settings; the default domain, unless named, is
        # inherited dynamically (in slots and macros) instead
        langs = dom[1] or el.get('i18n', 'source') or el.get('i18n', 'target')
        lex = (own or dom[0], langs)
        x['ctx'] = (lex[0] if own or (
            x['i18nany'] or el.has('metal', 'define-slot'))
            and (lex[0] != 'default' or langs) else None)
        x['attrs'] = {
            self.key(el, ns, k): v for ns, k, v in el.items}
        # METAL
        fill = el.get('metal', 'fill-slot')
        defm = el.get('metal', 'define-macro')
        use = el.get('metal', 'use-macro') or el.get('metal', 'extend-macro')
        dslot = el.get('metal', 'define-slot')
        saved_inuse, saved_slots = self.inuse, self.slots
        x['fill'] = x['defm'] = x['use'] = x['dslot'] = None
        if fill is not None:
            x['fill'] = fill
            self.inuse = False
        active = not self.inuse
        if active:
            x['defm'], x['dslot'] = defm, dslot
            x['use'] = use
            if use is not None:
                self.inuse = True
                self.slots = {}
                x['slots'] = self.slots
        x['kids'] = self.children(el.kids, lex)
        self.inuse = saved_inuse
        if active and use is not None:
            self.slots = saved_slots
        if fill is not None:
            self.slots[fill.strip()] = el
        if x['defm'] is not None:
            self.macros[x['defm'].strip()] = el
        return x

    def key(self, el, ns, k):
        k = item_name(el, ns, k, self.prefixes)
        return k.lower() if self.html else k


class Model:
    """One rendering."""

    def __init__(self, rt, html, strict=1, limit=100, interpolate=1,
                 prefixes=None, metal=True, show=()):
        self.rt = rt
        self.html = html
        self.metal = metal
        self.show = show      # kinds of directives that stay visible
        self.strict = strict
        self.limit = limit
        self.interpolate = interpolate
        self.prefixes = prefixes or DEFAULT_PREFIXES
        self.out = []
        self.stack = []       # macro uses in progress
        self.domains = ['default']
        self.units = []       # translation units being collected
        self.inuse = False

    def run(self, prep, file=None):
        if file is not None:
            self.rt.file = file
        self.nodes(prep.nodes)
        return ''.join(self.out)

    # plumbing ------------------------------------------------------------

    def w(self, s):
        self.out.append(s)

    def capture(self, fn, *args):
        saved = self.out
        self.out = []
        try:
            fn(*args)
            return ''.join(self.out)
        finally:
            self.out = saved

    def nodes(self, nodes):
        for n in nodes:
            if type(n) is str:
                self.out.append(n)
            else:
                self.element(n)

    def at(self, el):
        self.rt.position = el.pos

    # METAL ---------------------------------------------------------------

    def element(self, el):
        x = el.extra
        if not el.directive:
            self.static(el)
            return
        self.at(el)
        if not self.metal:
            self.body(el)
            return
        if x['fill'] is not None and el.file is not None:
            self.rt.file = el.file
        if x['defm'] is not None:
            was = self.inuse
            self.inuse = False
            try:
                self.macro_body(el)
            finally:
                self.inuse = was
        elif x['use'] is not None:
            self.use(el, None)
        elif x['dslot'] is not None:
            self.slot(el)
        else:
            self.body(el)

    def macro_body(self, el):
        self.at(el)
        if el.file is not None:
            self.rt.file = el.file
        if el.extra['use'] is not None:
            self.use(el, el.extra['defm'])
        else:
            self.body(el)

    def use(self, el, defining):
        rt = self.rt
        expr = el.extra['use']
        extending = defining is not None and self.inuse
        macro = rt.as_macro(expr)
        if type(macro) is Foreign:
            raise ModelForeign(el.pos)
        if len(self.stack) >= self.limit:
            raise ModelLimit()
        state = (list(self.stack), rt.file, self.inuse)
        self.stack.append((el.extra['slots'], extending))
        outer = self.using()
        rt.set_local('macroname', expr.rsplit('/', 1)[-1])
        self.inuse = True
        if macro is DEFAULT:
            self.body(el)
        elif macro is EMPTY:
            pass
        else:
            self.macro_body(macro)
        self.stack[:], rt.file, self.inuse = state
        rt.set_local('macroname', outer)

    def using(self):
        name = self.rt.lookup('macroname')
        return None if name == '?macroname' else name

    def slot(self, el):
        name = el.extra['dslot'].strip()
        stack = self.stack
        i = len(stack) - 1
        while i >= 0:
            slots, extending = stack[i]
            if name in slots:
                chopped = stack[i:]
                del stack[i:]
                try:
                    self.filler(slots[name])
                finally:
                    stack.extend(chopped)
                break
            if not extending:
                i = -1
                break
            i -= 1
        else:
            i = -1
        if i < 0:
            self.body(el)
        if el.file is not None:
            self.rt.file = el.file

    def filler(self, el):
        self.at(el)
        if el.file is not None:
            self.rt.file = el.file
        x = el.extra
        # a filler may itself define a slot
        if x['dslot'] is not None:
            self.slot(el)
        else:
            self.body(el)

    # TAL -----------------------------------------------------------------

    def static(self, el):
        self.start(el, {})
        if el.close == 'full':
            if self.html or el.extra['kids']:
                self.nodes(el.extra['kids'])
                self.w(f'</{self.name(el)}>')

    def name(self, el):
        n = qname(el, self.prefixes)
        return n.lower() if self.html else n

    def body(self, el):
        x = el.extra
        rt = self.rt
        if x['ctx'] is not None:
            self.domains.append(x['ctx'])
        if x['scope']:
            rt.scopes.append({})
            rt.set_local('attrs', x['attrs'])
        onerror = el.get('tal', 'on-error')
        if onerror is not None:
            self.guarded(el, onerror)
        else:
            self.statements(el)
        if x['scope']:
            rt.scopes.pop()
        if x['ctx'] is not None:
            self.domains.pop()

    def guarded(self, el, onerror):
        rt = self.rt
        saved = (self.out, list(self.stack), len(rt.scopes),
                 list(self.domains), list(self.units), rt.file, self.inuse)
        using = self.using()
        self.out = []
        try:
            self.statements(el)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError, TooBig)):
                raise
            (self.out, self.stack[:], n, self.domains[:], self.units[:],
             rt.file, self.inuse) = saved
            del rt.scopes[n:]
            self.at(el)
            rt.scopes.append({})
            if self.using() != using:
                rt.set_local('macroname', using)
            rt.set_local('error', ErrorInfo(e, rt.position))
            try:
                tagged = not el.nstag or self.show
                if tagged:
                    self.start(el, {}, '>')
                kind, expr = subst(onerror)
                if kind == 'text':
                    self.text(expr, None, False)
                else:
                    self.structure(expr, None, False, None)
                if tagged:
                    self.w(f'</{self.name(el)}>')
            finally:
                rt.scopes.pop()
        else:
            done = self.out
            self.out = saved[0]
            self.out.extend(done)

    def statements(self, el):
        rt = self.rt
        define = el.get('tal', 'define')
        if define is not None:
            for part in split_parts(define):
                words = part.split(None, 2)
                if words[0] in ('global', 'local') and len(words) == 3:
                    scope, name, expr = words
                else:
                    scope = 'local'
                    name, expr = part.split(None, 1)
                v = rt.as_value(expr)
                if scope == 'global':
                    rt.set_global(name, v)
                else:
                    rt.set_local(name, v)
        cond = el.get('tal', 'condition')
        if cond is not None:
            if not rt.as_boolean(cond):
                return
        rep = el.get('tal', 'repeat')
        if rep is None:
            self.named(el)
            return
        name, expr = rep.split(None, 1)
        seq = rt.as_sequence(expr)
        for item in seq:
            rt.tick('next', name)
            rt.set_local(name, item)
            self.w(el.extra['ws'])
            self.named(el)
            self.at(el)

    def named(self, el):
        name = el.get('i18n', 'name')
        if not name or not self.units:
            self.optional(el)
            return
        n = len(self.rt.scopes)
        value = normalise(self.capture(self.optional, el))
        del self.rt.scopes[n:]
        self.at(el)
        self.units[-1][name] = value
        self.w('${%s}' % name)

    def optional(self, el):
        """Start tag, content, end tag."""
        replace = el.get('tal', 'replace')
        omit = el.get('tal', 'omit-tag')
        if replace is not None and omit is None:
            omit = ''
        show = True
        if omit is not None:
            if omit == '' or self.rt.as_boolean(omit):
                show = False
        if el.nstag and not self.show:
            show = False
        repl = self.replacements(el)
        if replace is not None:
            frag_repl, repl = repl, {}
        else:
            frag_repl = None
        opt = omit is not None or el.nstag
        content = el.get('tal', 'content')
        if content is None:
            content = replace
        translate = el.get('i18n', 'translate')
        kids = el.extra['kids']
        empty = (not kids and content is None and translate is None
                 and not el.has('tal', 'script'))
        if self.html:
            if el.close == 'void':
                end = '>'
                closed = True
            elif el.close == 'self' and el.get('tal', 'content') is None:
                end = ' />'
                closed = True
            else:
                end = '>'
                closed = False
        else:
            closed = empty and (opt or not el.get('i18n', 'name'))
            end = '/>' if closed else '>'
        if show:
            self.start(el, repl, end)
        else:
            self.capture(self.start, el, repl, end)
        if not (closed and show):
            self.content(el, content, translate, kids, frag_repl)
        if show and not closed:
            self.w(f'</{self.name(el)}>')

    def content(self, el, content, translate, kids, frag_repl):
        if content is not None:
            kind, expr = subst(content)
            if kind == 'text':
                self.text(expr, kids, translate is not None)
            else:
                self.structure(expr, kids, translate is not None, frag_repl)
        elif translate is not None:
            self.unit(el, translate, kids)
        elif el.has('tal', 'script'):
            code = self.capture(self.nodes, kids)
            self.at(el)
            self.w(self.rt.as_code(el.get('tal', 'script'), code))
        else:
            self.nodes(kids)

    def text(self, expr, kids, translated):
        v = self.rt.as_text(expr)
        if v is None:
            return
        if v is DEFAULT:
            self.nodes(kids or [])
            return
        if translated or isinstance(v, Message):
            v = self.translate(v, getattr(v, 'default', str(v)), {})
        self.w(esc_text(v))

    def structure(self, expr, kids, translated, repl):
        v = self.rt.as_structure(expr)
        if v is None:
            return
        if v is DEFAULT:
            self.nodes(kids or [])
            return
        if translated or isinstance(v, Message):
            if not isinstance(v, (str, Message)):
                v = str(v)
            v = self.translate(v, getattr(v, 'default', str(v)), {})
        if isinstance(v, Frag) and (self.strict or repl):
            first = [repl] if repl else []
            self.frag(v.nodes, first)
        else:
            self.w(str(v))

    def frag(self, nodes, first):
        for n in nodes:
            if type(n) is Raw:
                self.w(n.text)
                continue
            if first:
                # attribute replacement happens inside a scope of its own
                self.rt.scopes.append({'attrs': UNSPECIFIED})
                repl = first.pop()
            else:
                repl = None
            if self.html:
                end = {'full': '>', 'void': '>', 'self': ' />'}[n.close]
                closed = n.close != 'full'
                if n.close == 'self' and n.has('tal', 'content'):
                    end, closed = '>', False
            else:
                closed = not any(
                    type(k) is El or k.text for k in n.kids)
                end = '/>' if closed else '>'
            self.start(n, repl or {}, end)
            if not closed:
                self.frag(n.kids, first)
                self.w(f'</{self.name(n)}>')
            if repl is not None:
                self.rt.scopes.pop()

    # attributes ----------------------------------------------------------

    def replacements(self, el):
        """name -> (expression or None, translated, msgid)"""
        arg = el.get('tal', 'attributes')
        i18n = el.get('i18n', 'attributes')
        xl = {}
        if i18n is not None:
            for spec in i18n.split(';'):
                words = spec.split()
                if words:
                    n = words[0].lower() if self.html else words[0]
                    xl[n] = words[1] if len(words) > 1 else None
        repl = {}
        if arg is not None:
            for part in split_parts(arg):
                name, expr = part.split(None, 1)
                if self.html:
                    name = name.lower()
                repl[name] = (expr, name in xl, xl.get(name))
        for n, msgid in xl.items():
            if n not in repl:
                repl[n] = (None, True, msgid)
        return repl

    def start(self, el, repl, end=None):
        if end is None:
            if self.html:
                end = ' />' if el.close == 'self' else '>'
            else:
                end = '>' if el.extra['kids'] else '/>'
        name = self.name(el)
        out = ['<', name]
        repl = dict(repl)
        items = el.items
        if self.show and not self.html:
            # declarations are reported first
            items = ([i for i in items if i[0] == 'xmlns']
                     + [i for i in items if i[0] != 'xmlns'])
        for ns, k, v in items:
            if ns is not None:
                if ns in self.show:
                    k = item_name(el, ns, k, self.prefixes)
                    if self.html:
                        k = k.lower()
                    out.append(f' {k}="{esc_attr(v)}"')
                continue
            key = k.lower() if self.html else k
            if key in repl:
                s = self.attribute(key, v, True, *repl.pop(key))
                if s is not None:
                    out.append(s)
            elif v is None:
                out.append(' ' + key)
            else:
                out.append(f' {key}="{esc_attr(v)}"')
        for key in sorted(repl):
            s = self.attribute(key, None, False, *repl[key])
            if s is not None:
                out.append(s)
        out.append(end)
        self.w(''.join(out))

    def attribute(self, name, value, present, expr, xlat, msgid):
        rt = self.rt
        if expr is None:
            if value is None and not msgid:
                return ' ' + name if present else None
        elif self.html and name in BOOLEAN:
            v = rt.as_boolean(expr)
            if v is DEFAULT:
                if not present:
                    return None
            elif v:
                value = None
            else:
                return None
        else:
            v = rt.as_text(expr)
            if v is DEFAULT:
                if not present:
                    return None
            elif v is None:
                return None
            else:
                value = v
        if xlat and (msgid or value is not None):
            value = self.translate(
                msgid or value,
                value if value is not None
                else getattr(msgid, 'default', str(msgid)), {})
        elif isinstance(value, Message):
            value = self.translate(value, value.default, {})
        if value is None:
            value = name
        return f' {name}="{esc_attr(value)}"'

    # I18N ----------------------------------------------------------------

    def unit(self, el, msgid, kids):
        mapping = {}
        self.units.append(mapping)
        content = self.capture(self.nodes, kids)
        self.units.pop()
        self.at(el)
        if not msgid:
            msgid = content if self.html and self.name(el) == 'pre' \
                else normalise(content)
        data = el.get('i18n', 'data')
        if data is not None:
            obj = self.rt.as_value(subst(data)[1])
            if obj:
                mapping.update(obj)
        self.w(self.translate(msgid, content, mapping))

    def translate(self, msgid, default, mapping):
        if not self.interpolate:
            return msgid
        return self.rt.translate(msgid, self.domains[-1], mapping, default)
