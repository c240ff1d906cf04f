"""Expression language, evaluation runtime and the engine given to zope.tal.

The expression language is deliberately tiny and its evaluation function is
shared by the real engine and by the reference model: expressions are not the
subject, what the template processor does with their values is.

    default nothing             the TAL constants
    data:K                      value K of the case's data table
    var:NAME                    variable; an undefined name yields '?NAME'
    str:TEXT                    the text
    not:EXPR                    negation
    attr:NAME                   attrs/NAME  ('?NAME' when absent)
    err:K                       raises exception class K
    errinfo:                    the on-error 'error' variable, as text
    mac:NAME mac:PATH/NAME      the macro called NAME
    attrs:                      all of attrs, as text
"""
from zope.i18nmessageid import Message

from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import I18NError
from zope.tal.taldefs import METALError
from zope.tal.taldefs import TALError


class Default:
    def __repr__(self):
        return 'DEFAULT'


DEFAULT = Default()


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class TooBig(BaseException):
    """The reference model gave up: the generated case is too large."""


class CompileBoom(Exception):
    """Raised by compile() for expressions that start with 'bad!'."""


ERRORS = [Boom, ValueError, KeyError, LookupError, TypeError, AttributeError,
          AssertionError, ZeroDivisionError, StopIteration, BaseBoom,
          RuntimeError, OSError, TALError, METALError, I18NError,
          HTMLParseError]


class Runtime:
    """Variables, data, fault injection and the evaluation trace."""

    def __init__(self, data=(), variables=None, fault_at=None,
                 fault_class=Boom, macros=None):
        self.data = data
        self.globals = dict(variables or {})
        self.scopes = [{}]
        self.trace = []          # (kind, expression)
        self.where = []          # (file, position) per trace entry
        self.translations = []   # (msgid, domain, mapping, default)
        self.ticks = 0
        self.fault_at = fault_at
        self.fault_class = fault_class
        self.fault_kind = None
        self.position = None
        self.file = None
        self.macros = macros if macros is not None else {}
        self.problems = []
        self.markup = True
        self.plain = ('', '~', '0', '4', 'F')    # ids translated without markup
        self.limit = None        # set for model runs only

    def tick(self, kind, expr):
        n = self.ticks
        if self.limit is not None and n > self.limit:
            raise TooBig()
        self.ticks = n + 1
        self.trace.append((kind, expr))
        self.where.append((self.file, self.position))
        if self.fault_at == n:
            self.fault_kind = kind
            raise self.fault_class(f'injected at {n}')

    def lookup(self, name):
        for d in reversed(self.scopes):
            if name in d:
                return d[name]
        return self.globals.get(name, '?' + name)

    def set_local(self, name, value):
        self.scopes[-1][name] = value

    def set_global(self, name, value):
        self.globals[name] = value

    def value(self, expr):
        # white space before a separator belongs to the expression
        if not expr.startswith('str:'):
            expr = expr.strip()
        if expr == 'default':
            return DEFAULT
        if expr == 'nothing':
            return None
        kind, _, rest = expr.partition(':')
        if kind == 'data':
            return self.data[int(rest)]
        if kind == 'var':
            return self.lookup(rest)
        if kind == 'str':
            return rest
        if kind == 'not':
            v = self.value(rest)
            return not (v is DEFAULT or v)
        if kind == 'attr':
            attrs = self.lookup('attrs')
            if isinstance(attrs, dict):
                return attrs.get(rest, '?' + rest)
            return '?attrs'
        if kind == 'err':
            raise ERRORS[int(rest) % len(ERRORS)]('from ' + expr)
        if kind == 'attrs':
            attrs = self.lookup('attrs')
            if isinstance(attrs, dict):
                return repr(sorted(attrs.items(), key=repr))
            return '?attrs'
        if kind == 'errinfo':
            e = self.lookup('error')
            if isinstance(e, str):
                return e
            return f'{e.type.__name__}/{e.value}'
        raise Boom('unknown expression %r' % expr)

    # evaluation flavours -------------------------------------------------

    def as_value(self, expr):
        self.tick('value', expr)
        return self.value(expr)

    def as_boolean(self, expr):
        self.tick('boolean', expr)
        v = self.value(expr)
        if v is DEFAULT:
            return v
        return bool(v)

    def as_text(self, expr):
        self.tick('text', expr)
        v = self.value(expr)
        if v is DEFAULT or v is None or isinstance(v, (str, Message)):
            return v
        return str(v)

    def as_structure(self, expr):
        self.tick('structure', expr)
        return self.value(expr)

    def as_sequence(self, expr):
        self.tick('repeat', expr)
        v = self.value(expr)
        if v is None:
            return []
        if not isinstance(v, (list, tuple)):
            raise TypeError('not a sequence')
        return v

    def as_macro(self, expr):
        self.tick('macro', expr)
        if expr == 'default':
            return DEFAULT
        kind, _, name = expr.partition(':')
        if kind == 'err':
            return self.value(expr)
        return self.macros[name.rpartition('/')[2]]

    def as_code(self, lang, code):
        self.tick('code', (lang, code))
        return f'[{lang}|{code}]'

    def translate(self, msgid, domain, mapping, default):
        """A catalogue in which everything is known except ids containing
        'unk', with an injective visible rendering."""
        # the default travels only for plain ids: message objects carry their
        # own
        if isinstance(msgid, Message):
            rec = ('M', str(msgid), domain, msgid.domain, msgid.default,
                   tuple(sorted((mapping or {}).items())))
            mdomain = msgid.domain or domain
            mapping = msgid.mapping
            default = msgid.default
        else:
            rec = ('S', str(msgid), domain,
                   tuple(sorted((mapping or {}).items())), default)
            mdomain = domain
        self.tick('translate', str(msgid))
        self.translations.append(rec)
        if hasattr(msgid, 'nodes'):
            return msgid.inside(f'[{mdomain}|', ']')
        if 'unk' in str(msgid):
            text = str(msgid) if default is None else str(default)
        else:
            text = (f'{mdomain}<{msgid}>' if self.markup
                    and msgid[:1] not in self.plain
                    else f'[{mdomain}|{msgid}]')
        for k, v in (mapping or {}).items():
            text = text.replace('${%s}' % k, '{%s=%s}' % (k, v))
        return text


class Compiled:
    """Opaque compiled expression."""
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    def __eq__(self, other):
        return isinstance(other, Compiled) and other.expr == self.expr

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.expr)

    def __repr__(self):
        return 'C<%s>' % self.expr


class Iterator:
    def __init__(self, engine, name, seq):
        self.engine = engine
        self.name = name
        self.seq = seq
        self.i = 0

    def __next__(self):
        if self.i >= len(self.seq):
            return False
        item = self.seq[self.i]
        self.i += 1
        self.engine.rt.tick('next', self.name)
        self.engine.rt.set_local(self.name, item)
        return True

    next = __next__


class ErrorInfo:
    def __init__(self, err, position):
        self.type = err.__class__
        self.value = err
        self.lineno, self.offset = position


class Compiler:
    """ITALExpressionCompiler."""

    def getCompilerError(self):
        return CompileBoom

    def compile(self, expr):
        if expr.startswith('bad!'):
            raise CompileBoom('cannot compile')
        return Compiled(expr)


class Engine(Compiler):
    """ITALExpressionEngine over a Runtime."""

    def __init__(self, rt):
        self.rt = rt

    def getDefault(self):
        return DEFAULT

    def setPosition(self, position):
        self.rt.position = position

    def setSourceFile(self, name):
        self.rt.file = name

    def beginScope(self):
        self.rt.scopes.append({})

    def endScope(self):
        if len(self.rt.scopes) <= 1:
            self.rt.problems.append('more endScope than beginScope calls')
        else:
            self.rt.scopes.pop()

    def setLocal(self, name, value):
        self.rt.set_local(name, value)

    def setGlobal(self, name, value):
        self.rt.set_global(name, value)

    def getValue(self, name, default=None):
        for d in reversed(self.rt.scopes):
            if name in d:
                return d[name]
        return self.rt.globals.get(name, default)

    def _x(self, c):
        if type(c) is not Compiled:
            self.rt.problems.append(
                'engine asked to evaluate %r, which compile() never returned'
                % (c,))
            raise Boom('not a compiled expression')
        return c.expr

    def evaluate(self, c):
        return self.rt.as_value(self._x(c))

    evaluateValue = evaluate

    def evaluateBoolean(self, c):
        return self.rt.as_boolean(self._x(c))

    def evaluateText(self, c):
        return self.rt.as_text(self._x(c))

    def evaluateStructure(self, c):
        return self.rt.as_structure(self._x(c))

    def evaluateMacro(self, c):
        return self.rt.as_macro(self._x(c))

    def setRepeat(self, name, c):
        return Iterator(self, name, self.rt.as_sequence(self._x(c)))

    def createErrorInfo(self, err, position):
        return ErrorInfo(err, position)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        return self.rt.translate(msgid, domain, mapping, default)

    def evaluateCode(self, lang, code):
        return self.rt.as_code(lang, code)
