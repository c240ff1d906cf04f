"""The bundled expression engine behaves like scoped variables."""
import os
import re
import sys
from io import StringIO

from . import common
from ..core import Violation
from ..dummy import DummyGen
from ..dummy import ModelEngine
from ..engine import DEFAULT
from ..gen import Opt
from ..gen import VARS
from ..harness import Case
from ..harness import diff_text
from ..harness import fits
from ..real import TALInterpreter
from ..real import attempt
from ..real import render

from zope.i18nmessageid import Message
from zope.tal.dummyengine import DummyEngine
from zope.tal.dummyengine import MultipleDomainsDummyEngine
from zope.tal.htmltalparser import HTMLTALParser

ID = 'C24'
LEVEL = 'exploration'
CASES = {'quick': 400000, 'thorough': 6000000}
RULE = ('a case is a sequence of up to 40 calls of the bundled engine '
        '(balanced scopes, local and global variables, loops advanced at any '
        'time, expressions of every kind and flavour, positions, error '
        'information, translations, local and external macros), each answer '
        'compared with a model of frames over globals; or a '
        'generated template rendered with the engine, compared with the '
        'reference model.  Non-trivial: a '
        'lookup after a scope was left, a loop, a translation with parts or '
        'an external macro, or a template with expressions; distinct by calls '
        'or sources')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'python: expressions only read variables',
]
PROBES = {}

NAMES = ['a', 'b', 'c', 'item', 'x_1', 'A']
VALUES = ['', 'text', 0, 1, 7, 2.5, True, False, None, 'DEFAULT', (1, 2), [],
          'é', '$x$', 'a:b', {}, Message('mid', domain='d')]
TEXTS = ['', 'plain', ' two words ', 'a:b', '$', '$x$', '${a}', 'é\nz', ';',
         '<b>&', 'not:a', 'path:a', '::']


class State:
    """The engine according to its documentation."""

    def __init__(self, default):
        self.default = default
        self.globals = {'nothing': None, 'default': default}
        self.frames = [{}]
        self.position = None
        self.file = None

    def get(self, name):
        """(found, value)"""
        for f in reversed(self.frames):
            if name in f:
                return True, f[name]
        if name in self.globals:
            return True, self.globals[name]
        return False, None


class Fails(Exception):
    pass


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def evaluate(st, e):
    kind, arg = e
    if kind in ('string', 'str'):
        return arg
    if kind in ('', 'path', 'var', 'global', 'local'):
        found, v = st.get(arg.strip())
        if not found:
            raise Fails()
        return v
    if kind == 'not':
        return not evaluate(st, arg)
    if kind == 'exists':
        return st.get(arg.strip())[0]
    if kind == 'position':
        line, col = st.position or (None, None)
        return '%s (%s,%s)' % (st.file, line, col)
    if kind == 'python':
        found, v = st.get(arg)
        if not found:
            raise Fails()
        return (v, arg)
    raise Fails()


def spell(e):
    kind, arg = e
    if kind == '':
        return arg
    if kind == 'not':
        return 'not:' + spell(arg)
    if kind == 'python':
        return 'python:(%s, %r)' % (arg, arg)
    return kind + ':' + arg


def gen_expr(src, depth=0):
    s = src
    return s.freq([
        (4, lambda: ('', s.choice(NAMES + ['nothing', 'default']))),
        (2, lambda: (s.choice(['path', 'var', 'global', 'local']),
                     s.choice(['', ' ']) + s.choice(NAMES)
                     + s.choice(['', ' ', '\n']))),
        (3, lambda: (s.choice(['string', 'str']), s.choice(TEXTS))),
        (2 if depth < 3 else 0, lambda: ('not', gen_expr(s, depth + 1))),
        (2, lambda: ('exists', s.choice(['', '', ' '])
                     + s.choice(NAMES + ['nothing'])
                     + s.choice(['', '', ' ', '\n ']))),
        (1, lambda: ('position', '')),
        (1, lambda: ('python', s.choice(NAMES))),
        (1, lambda: (s.choice(['nosuch', 'String', 'paths', '_']), 'a')),
    ])()


# translations ------------------------------------------------------------

PLAIN = ['Hello', ' ', 'ß', 'x y', '.', '$', '$$', '${', '}', '$1', '{a}',
         'É', '%(a)s', '${ a}', '-', '\n']
PARTS = ['a', 'name', 'n_1', 'a-b', '_x', 'item9']
METHODS = ['upper', 'lower', 'title', 'swapcase', 'capitalize', 'strip',
           'casefold']


def gen_message(src):
    """(template, {part: value})"""
    s = src
    mapping = {}
    out = ''
    for _ in range(s.count(1, 5, .7)):
        if s.flag(.5):
            p = s.choice(PARTS)
            mapping[p] = s.choice(['', 'V', 'v w', '${a}', '$a', 7, 'É', None])
            out += s.choice(['${%s}', '${%s}', '$%s']) % p
        else:
            t = s.choice(PLAIN)
            out += t
    return out, mapping


def scan(text, mapping):
    """Substitute placeholders; None when one is not in the mapping."""
    out = []
    i = 0
    name = re.compile(r'[_A-Za-z][-\w]*')
    while i < len(text):
        if text[i] == '$':
            if text[i + 1:i + 2] == '{':
                m = name.match(text, i + 2)
                end = m and m.end()
                ok = m and text[end:end + 1] == '}'
                nxt = end + 1 if ok else None
            else:
                m = name.match(text, i + 1)
                ok = bool(m)
                nxt = m and m.end()
            if ok:
                key = m.group().lower()
                if mapping is None or key not in mapping:
                    return None
                out.append(str(mapping[key]))
                i = nxt
                continue
        out.append(text[i])
        i += 1
    return ''.join(out)


LONG = ('a_very_explicit_domain_setup_by_template_developer_that_wont_be_'
        'taken_into_account_by_the_ZPT_engine')


def translation(src, engine, multiple, log):
    s = src
    msgid, mapping = gen_message(s)
    extra = s.flag(.3)
    if extra:
        mapping['unused'] = 'u'
    domain = s.choice([None, 'default', 'zope', 'x'] + METHODS
                      + ([LONG] if multiple else []))
    default = gen_message(s)
    if s.flag(.15):
        msgid = "don't translate me"
        for k, v in default[1].items():
            mapping.setdefault(k, v)
        dtext = default[0]
    else:
        dtext = s.choice([None, 'D', ''])
    unknown = msgid == "don't translate me"
    if s.flag(.3):
        if unknown:
            dtext = s.choice([dtext, None, '', 'D'])
        if not mapping or unknown and not dtext:
            mapping = None
        mdomain = s.choice([None, 'zope'] + METHODS)
        arg = Message(msgid, domain=mdomain, default=dtext, mapping=mapping)
        log.append('translate(Message(%r, %r, %r, %r), %r)' % (
            msgid, mdomain, dtext, mapping, domain))
        effective = mdomain
        # a message carries everything itself
        got = attempt(engine.translate, arg, domain, {'a': 'WRONG'},
                      default='WRONG')
    else:
        log.append('translate(%r, %r, %r, %r)' % (msgid, domain, mapping,
                                                  dtext))
        effective = 'lower' if domain == LONG else domain
        got = attempt(engine.translate, msgid, domain, mapping,
                      default=dtext)
    if unknown:
        text = msgid if dtext is None else dtext
    elif effective in METHODS:
        text = getattr(str(msgid), effective)()
    else:
        text = msgid.upper()
    text = str(text)
    want = scan(text, mapping)
    if want is None:
        # the transformation created a placeholder; not specified
        return False
    if got.error or got.text != want:
        raise Violation('%s: expected %r, got %r' % (log[-1], want, got))
    return bool(mapping)


# macros ------------------------------------------------------------------

def macro_text(i):
    return '<b metal:define-macro="m%d">macro %d</b>' % (i, i)


def macro_output(macro):
    out = StringIO()
    TALInterpreter(macro, {}, DummyEngine(), out, wrap=0)()
    return out.getvalue()


_files = {}


def macro_file(n, ext):
    """A file defining macros m0..m<n-1> plus text, made once per process."""
    if (n, ext) not in _files:
        path = os.path.join(os.environ['TALPBT_TMP'],
                            'macros-%d-%d%s' % (os.getpid(), n, ext))
        body = ''.join(macro_text(i).replace('macro', 'file%d' % n)
                       .replace('define-file%d' % n, 'define-macro')
                       for i in range(n))
        if ext == '.xml':
            body = ('<root xmlns:metal="http://xml.zope.org/namespaces/metal">'
                    '%s</root>' % body)
        with open(path, 'w') as f:
            f.write(body)
        _files[n, ext] = path
    return _files[n, ext]


_local = None


def local_macros():
    global _local
    if _local is None:
        p = HTMLTALParser()
        p.parseString(macro_text(0) + macro_text(1))
        _local = p.getCode()[1]
    return _local


def macro(src, engine, log, scratch):
    s = src
    where = s.choice(['local', 'local', 'file', 'file', 'bad'])
    i = s.draw(3)
    if where == 'bad':
        name = s.choice(['', 'nosuch'])
        log.append('evaluateMacro(%r)' % name)
        got = attempt(engine.evaluateMacro, engine.compile(name))
        want = 'TALExpressionError' if not name else 'KeyError'
        if not got.error or got.error[0] != want:
            raise Violation('%s: expected %s, got %r' % (log[-1], want, got))
        return False
    if where == 'local':
        known = i < 2
        name = 'm%d' % i
        text = '<b>macro %d</b>' % i
        failure = 'KeyError'
    else:
        n = s.int(1, 3)
        ext = s.choice(['.html', '.htm', '.HTML', '.xml', '.pt'][:4])
        known = i < n
        name = macro_file(n, ext) + '/m%d' % i
        text = '<b>file%d %d</b>' % (n, i)
        failure = 'TALExpressionError'
    log.append('evaluateMacro(%r)' % name.replace(scratch, ''))
    got = attempt(engine.evaluateMacro, engine.compile(name))
    if not known:
        if not got.error or got.error[0] != failure:
            raise Violation('%s: expected %s, got %r' % (log[-1], failure,
                                                         got))
        return where == 'file'
    if got.error:
        raise Violation('%s: %r' % (log[-1], got))
    shown = macro_output(got.text)
    if shown != text:
        raise Violation('%s: expected %r, got %r' % (log[-1], text, shown))
    return where == 'file'


class Indexed:
    """Has items by number only; may fail instead of ending."""

    def __init__(self, items):
        self.items = items
        self.broken = bool(items) and items[0] == 'text'

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i == len(self.items) and self.broken:
            raise KeyError(i)
        return self.items[i]

    def __repr__(self):
        return 'Indexed(%r, %r)' % (self.items, self.broken)


# the sequence ------------------------------------------------------------

FLAVOURS = ['evaluate', 'evaluateValue', 'evaluateText', 'evaluateBoolean',
            'evaluateStructure']


def template(src, ctx):
    """A whole template rendered with the engine."""
    s = src
    html = s.flag(.6)
    lib = s.flag(.4)
    g = DummyGen(s, Opt(html=html, metal=lib, extend=lib, errors=s.flag(.3),
                        onerror=s.flag(.4), maxel=8, p_dir=.75,
                        attrs_expr=False, macroname=False, usedefault=False,
                        structure=False, paths=False))
    c = Case(g.library() if lib else [g.document()], g, html)
    c.runtime_class = ModelEngine
    c.variables = {v: v + '0' for v in VARS}
    ctx.show(mode='html' if html else 'xml', sources=c.sources)
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    c.compile(DummyEngine())
    engine = DummyEngine({'mac:' + k: v for k, v in c.rmacros.items()})
    for k, v in c.variables.items():
        engine.setGlobal(k, v)
    program, macros = c.programs[-1]
    out = attempt(render, program, macros, None, engine, wrap=0)
    if bool(m[0].error) != bool(out.error):
        raise Violation('expected %r, got %r' % (m[0], out))
    if m[0].text != out.text:
        raise Violation('output: ' + diff_text(m[0].text, out.text))
    for k, v in m[1].globals.items():
        got = engine.getValue(k)
        if got is engine.getDefault():
            got = DEFAULT
        if not out.error and got != v:
            raise Violation('global %s: expected %r, got %r' % (k, v, got))
    ctx.label('template')
    if m[1].trace:
        ctx.nontrivial(c.sources, {'sources': c.sources})


def case(src, ctx):
    if src.flag(.15):
        template(src, ctx)
    else:
        sequence(src, ctx)


def sequence(src, ctx):
    s = src
    multiple = s.flag(.2)
    engine = (MultipleDomainsDummyEngine if multiple else DummyEngine)(
        local_macros())
    st = State(engine.getDefault())
    log = []
    loops = []
    left = False
    hard = False
    scratch = os.environ['TALPBT_TMP']
    n = s.count(3, 40, .93)

    def value():
        v = s.choice(VALUES)
        return st.default if v == 'DEFAULT' else v

    try:
        for _ in range(n):
            op = s.freq([(4, 'begin'), (3, 'end'), (6, 'local'),
                         (3, 'global'), (3, 'get'), (10, 'eval'),
                         (3, 'repeat'), (5, 'next'), (2, 'pos'), (1, 'file'),
                         (1, 'info'), (2, 'code'), (3, 'translate'), (1, 'macro')])
            ctx.label(op)
            if op == 'begin':
                log.append('beginScope')
                engine.beginScope()
                st.frames.append({})
            elif op == 'end':
                if len(st.frames) > 1:
                    log.append('endScope')
                    engine.endScope()
                    st.frames.pop()
                    left = True
            elif op == 'local':
                name, v = s.choice(NAMES), value()
                log.append('setLocal(%s, %r)' % (name, v))
                engine.setLocal(name, v)
                st.frames[-1][name] = v
            elif op == 'global':
                name, v = s.choice(NAMES), value()
                log.append('setGlobal(%s, %r)' % (name, v))
                engine.setGlobal(name, v)
                st.globals[name] = v
            elif op == 'get':
                name = s.choice(NAMES + ['nothing', 'default'])
                d = s.choice([None, 'dflt'])
                log.append('getValue(%s, %r)' % (name, d))
                found, v = st.get(name)
                got = engine.getValue(name, d)
                if not same(got, v if found else d):
                    raise Violation('%s: expected %r, got %r' % (
                        log[-1], v if found else d, got))
                hard = hard or left
            elif op == 'eval':
                e = gen_expr(s)
                how = s.choice(FLAVOURS)
                log.append('%s(%s)' % (how, spell(e)))
                got = attempt(getattr(engine, how), engine.compile(spell(e)))
                try:
                    want = evaluate(st, e)
                except Fails:
                    if not got.error or got.error[0] != 'TALExpressionError':
                        raise Violation('%s: expected an expression error, '
                                        'got %r' % (log[-1], got))
                    continue
                if got.error:
                    raise Violation('%s: %r' % (log[-1], got))
                v = got.text
                if how == 'evaluateText' and not (
                        want is None or want is st.default
                        or isinstance(want, str)):
                    want = str(want)
                if how == 'evaluateBoolean':
                    want, v = bool(want), bool(v)
                if not same(v, want):
                    raise Violation('%s: expected %r, got %r' % (log[-1],
                                                                 want, v))
                hard = hard or left
            elif op == 'repeat':
                name = s.choice(NAMES)
                seq = s.many(value, 0, 3, .7)
                if s.flag(.3):
                    seq = tuple(seq)
                elif s.flag(.2):
                    seq = Indexed(seq)
                engine.setGlobal('SEQ', seq)
                st.globals['SEQ'] = seq
                log.append('setRepeat(%s, %r)' % (name, seq))
                loops.append([engine.setRepeat(name, engine.compile('SEQ')),
                              name, seq, 0])
            elif op == 'next' and loops:
                loop = s.choice(loops)
                it, name, seq, i = loop
                log.append('next(%s %d)' % (name, i))
                if i == len(seq) and getattr(seq, 'broken', False):
                    got = attempt(next, it)
                    if not got.error or got.error[0] != 'KeyError':
                        raise Violation('%s of a sequence that fails: got %r'
                                        % (log[-1], got))
                    continue
                got = next(it)
                if bool(got) != (i < len(seq)):
                    raise Violation('%s of %r: got %r' % (log[-1], seq, got))
                if i < len(seq):
                    st.frames[-1][name] = seq[i]
                    loop[3] += 1
                    hard = True
            elif op == 'pos':
                p = s.choice([(1, 0), (12, 7), None])
                log.append('setPosition(%r)' % (p,))
                engine.setPosition(p)
                st.position = p
            elif op == 'file':
                f = s.choice(['f.pt', 'a/b.html', None])
                log.append('setSourceFile(%r)' % f)
                engine.setSourceFile(f)
                st.file = f
            elif op == 'info':
                err = s.choice([ValueError('x'), KeyError('k'),
                                SystemExit(2), BaseException('b'),
                                StopIteration(), GeneratorExit()])
                p = (s.int(1, 9), s.int(0, 9))
                log.append('createErrorInfo(%r, %r)' % (err, p))
                i = engine.createErrorInfo(err, p)
                got = tuple(getattr(i, k, '(missing)') for k in (
                    'type', 'value', 'lineno', 'offset'))
                if got != (type(err), err) + p:
                    raise Violation('%s: got %r' % (log[-1], got))
            elif op == 'code':
                name = s.choice(NAMES)
                v = s.choice([3, 'v', None, (1,)])
                text = s.choice(['', 'said', '<b>'])
                code = '%s = %r\nprint(%r, end="")' % (name, v, text)
                if s.flag(.2):
                    # spaces at line ends matter in literals
                    tail = s.choice(['a \nb', ' \tz\n .', 'x  \n\ty \n'])
                    code += '\nprint("""%s""", end="")' % tail
                    text += tail
                if s.flag(.2):
                    code = s.choice(['<!--', ' <!--\n', '\n<!-- \n']) \
                        + code + s.choice(['-->', '\n--> ', '\n-->\n'])
                fails = s.flag(.15) and not code.strip().endswith('>')
                if fails:
                    code += '\n' + s.choice(['1/0', 'nosuch', 'raise KeyError'])
                log.append('evaluateCode(%r)' % code)
                stdout = sys.stdout
                got = attempt(engine.evaluateCode, 'text/server-python', code)
                if sys.stdout is not stdout:
                    sys.stdout = stdout
                    raise Violation('%s: output is still diverted' % log[-1])
                if fails:
                    if not got.error:
                        raise Violation('%s: got %r' % (log[-1], got))
                    continue
                st.frames[-1][name] = v
                if got.error or got.text != text:
                    raise Violation('%s: got %r' % (log[-1], got))
            elif op == 'translate':
                hard = translation(s, engine, multiple, log) or hard
            elif op == 'macro':
                hard = macro(s, engine, log, scratch) or hard
    finally:
        ctx.show(calls=log, multiple=multiple)
    if hard:
        ctx.nontrivial(log, {'calls': log})


