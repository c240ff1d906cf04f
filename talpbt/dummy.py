"""Templates in the expression language of the bundled engine."""
from .engine import DEFAULT
from .engine import Boom
from .engine import Runtime
from .gen import Gen
from .gen import VARS

# texts without quotes: they appear in python: expressions as well
LITERALS = ['', 'one', 'foo bar', 'a<b', 'x & y', 'é', 'q;r', '>', '&lt;',
            '日本', '100%', '$', 'z:w', "it's"]


class DummyGen(Gen):
    """Generates expressions for DummyEngine; every variable in VARS must be
    defined."""

    def lit(self):
        return 'str%s:%s' % (self.s.choice(['', 'ing']),
                             self.s.choice(LITERALS))

    def var(self):
        return self.s.choice(['', '', 'path:', 'var:']) + self.s.choice(VARS)

    def err(self):
        return self.s.choice(['nosuch', 'bogus:x', 'python:1/0'])

    def simple(self):
        s = self.s
        return s.freq([
            (5, self.lit), (4, self.var), (1, lambda: 'nothing'),
            (1, lambda: 'default'),
            (1, lambda: 'python:%r' % (s.choice([0, 1, 2.5, (1, 'a'), 'p']),)),
            (1, lambda: 'exists:' + s.choice(VARS + ['nosuch'])),
            (1, lambda: 'not:' + self.var()),
            (1 if self.o.errors else 0, self.err)])()

    x_any = x_value = x_text = simple

    def x_bool(self):
        s = self.s
        return s.freq([(3, lambda: 'python:1'), (2, lambda: 'nothing'),
                       (3, self.simple), (1, lambda: 'not:' + self.var())])()

    def x_seq(self):
        s = self.s
        return 'python:%r' % (s.many(
            lambda: s.choice([0, 1, 'i', '<', None]), 0, 3, .65),)

    def x_struct(self):
        s = self.s
        return s.freq([
            (4, lambda: 'str:' + s.choice(
                ['<b>x</b>', 'plain', '<i title="q">y<br/></i> z', ''] + (
                    ["<B title='u'>v</B>"] if self.o.lenient else []))),
            (1, lambda: 'nothing'), (1, lambda: 'default'),
            (1 if self.o.errors else 0, self.err)])()

    def x_handler(self):
        s = self.s
        e = s.freq([(3, self.lit), (2, self.var), (1, lambda: 'nothing')])()
        return ('text ' if s.flag(.1) else '') + e

    def x_data(self):
        return 'python:%r' % ({k: self.s.choice(['v', '<', 3]) for k in
                               self.s.sample(['n1', 'n2', 'q'], 0, 3)},)


class ModelEngine(Runtime):
    """The same language for the reference model."""

    def value(self, expr):
        if not expr.startswith('str'):
            expr = expr.strip()
        kind, colon, rest = expr.partition(':')
        if not colon:
            kind, rest = 'path', expr
        if kind in ('str', 'string'):
            return rest
        if kind in ('path', 'var'):
            return self.find(rest)
        if kind == 'not':
            return not self.value(rest)
        if kind == 'exists':
            try:
                self.find(rest)
            except Boom:
                return False
            return True
        if kind == 'python':
            return eval(rest, {}, {})
        raise Boom('unknown expression')

    def find(self, name):
        if name == 'default':
            return DEFAULT
        if name == 'nothing':
            return None
        v = self.lookup(name)
        if v == '?' + name:
            raise Boom('unknown variable')
        return v
