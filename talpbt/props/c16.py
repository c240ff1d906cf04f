"""Arbitrary input is compiled or refused, and what compiles renders."""
import zlib

from . import common
from ..core import Violation
from ..engine import DEFAULT
from ..engine import Boom
from ..engine import Engine
from ..engine import Runtime
from ..engine import TooBig
from ..gen import Gen
from ..gen import Opt
from ..real import PARSE_ERRORS
from ..real import compile_template
from ..real import message
from ..real import render
from ..tmpl import NS_URI
from ..tmpl import serialise

ID = 'C16'
LEVEL = 'exploration'
CASES = {'quick': 250000, 'thorough': 4000000}
RULE = ('a case is a text: a random sequence of markup, directive and '
        'character tokens, or a valid generated template damaged by one to '
        'six edits (delete, repeat, insert, exchange, truncate); for XML also '
        'as bytes in several encodings.  Compiling must end with a program '
        'or a documented parse error; what compiles is rendered twice, with '
        'arbitrary values, and must give the same text or fail with a '
        'documented error or the very exception an expression raised.  '
        'Non-trivial: contains markup; distinct by source')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'inputs up to about twelve thousand characters',
    'non-termination is judged by 60 s of CPU time for one input']
PROBES = {}

TAGS = ['div', 'p', 'b', 'li', 'ul', 'table', 'tr', 'td', 'script', 'style',
        'title', 'textarea', 'br', 'img', 'h1', 'h2', 'pre', 'a', 'tal:x',
        'metal:block', 'i18n:y', 'dl', 'dd', 'dt', 'x:y', 'xmp', 'plaintext',
        'input', 'root', 'foo', 'tal:', ':x', 'BASE', 'Div', 'é', 'svg:g']
DIRS = ['tal:define', 'tal:condition', 'tal:repeat', 'tal:content',
        'tal:replace', 'tal:attributes', 'tal:omit-tag', 'tal:on-error',
        'metal:define-macro', 'metal:use-macro', 'metal:extend-macro',
        'metal:define-slot', 'metal:fill-slot', 'i18n:translate',
        'i18n:domain', 'i18n:name', 'i18n:attributes', 'i18n:data',
        'i18n:source', 'i18n:target', 'i18n:ignore', 'i18n:ignore-attributes',
        'tal:script', 'tal:tal tag', 'tal:', 'metal:', 'i18n:x', 'TAL:CONTENT',
        'xmlns:tal', 'xmlns:x', 'xmlns', 'xmlns:', 'content', 'replace',
        'define-macro', 'translate', 'x:content', 'tal:content:x', 'type',
        'class', 'checked', 'title', 'href', 'tal:block', ':tal', 'tal']
VALUES = ['', 'x', 'str:x', 'a str:b', 'a str:b; c str:d', 'structure data:0',
          'text data:1', 'default', 'nothing', 'mac:m', 'mac:n', 'm', 'n',
          's', 'title', 'title str:x', 'title; class', 'title mid', 'bad!',
          'global a data:2', 'local', 'text', 'structure', 'structure ', ';',
          ';;', '; ;', ' ', '\n', 'a', 'a b c', 'err:0', 'err:9', '"', "'",
          '<', '&', '&amp;', '&#', '&#x;', '&x', '${n}', '$', '%s', '%',
          'text/server-python', 'text/server-', 'text/javascript', '1', '*',
          NS_URI['tal'], NS_URI['metal'], NS_URI['i18n'], 'http://x', 'é',
          'attrs:', 'errinfo:', 'class str:a; class str:b', 'var:macroname',
          'x' * 90, '\x00', '\\1', '\\', 'n1', 'a-b', 'd']
TEXT = [' ', '\n', 'one', '&amp;', '&', '&#65;', '&#', '&#x', '&;', '&#;',
        '&nosuch;', '&nbsp', '<', '>', '</', '<!', '<?', '<!--', '-->',
        '--', ']]>', '<![', '<![CDATA[', '<!DOCTYPE', '<!DOCTYPE x [', ']>',
        '<!ENTITY a "b">', '<!ELEMENT x ANY>', '"', "'", '=', '/', '/>', '?>',
        '<?xml version="1.0"?>', '<?xml version="1.0" encoding="%s"?>',
        '<?php', '${n}', '${', '$n', '\x00', '\x0c', '\r', '\r\n', '\t', 'é',
        '日', '😀', '﻿', '\xa0', ' ', 'tal:content="x"', '<3',
        '</>', '<>', '< b>', '<!>', '<!->', '<!-->', '<![if x]>', '<![endif]>',
        '<br/>', '</br>', '</p>', '</div>', '</script>', '<script', '<b <i>',
        '&lt;b&gt;', '%s', '%(x)s', '\\', '퟿', '\x1f', '&a;', '<!--x--!>']
ENCODINGS = ['utf-8', 'iso-8859-1', 'utf-16', 'us-ascii', 'utf-16-le',
             'windows-1252', 'utf-8-sig', 'x-nope', 'ebcdic', 'utf-7', '']


class FuzzEngine(Engine):
    """Answers every expression; remembers every exception it raises."""

    def __init__(self, rt, salt, macros):
        Engine.__init__(self, rt)
        self.salt = salt
        self.macros = macros
        self.raised = []

    def spend(self, expr):
        rt = self.rt
        rt.ticks += 1
        if rt.ticks > 400:
            raise TooBig()
        return zlib.crc32(repr((self.salt, expr)).encode(
            'utf-8', 'replace'))

    def fail(self, what):
        e = Boom('no %r' % (what,))
        self.raised.append(e)
        raise e

    def value(self, c):
        expr = self._x(c)
        h = self.spend(expr)
        if expr == 'default':
            return DEFAULT
        if expr == 'nothing':
            return None
        if expr.startswith(('str:', 'attr:', 'attrs:', 'var:')):
            return self.rt.value(expr)
        if expr.startswith('err:'):
            self.fail(expr)
        k = h % 19
        if k == 0:
            self.fail(expr)
        return [None, DEFAULT, '', 'x', 0, 1, ['a', 'b'], (), {}, {'n': 'v'},
                True, False, '<b>&amp;</b>', '</div>', '<b tal:content="x">',
                3.5, 'é', '<', '<p>x'][k]

    evaluateStructure = value

    def evaluate(self, c):
        # also used where a mapping is wanted
        v = self.value(c)
        return v if v is None else {'n': v}

    evaluateValue = evaluate

    def evaluateBoolean(self, c):
        v = self.value(c)
        return v if v is DEFAULT else bool(v)

    def evaluateText(self, c):
        v = self.value(c)
        return v if v is DEFAULT or v is None or isinstance(v, str) \
            else str(v)

    def evaluateMacro(self, c):
        expr = self._x(c)
        h = self.spend(expr)
        if expr == 'default' or h % 11 == 0:
            return DEFAULT
        name = expr.partition(':')[2]
        if name in self.macros:
            return self.macros[name]
        if self.macros and h % 3:
            return self.macros[sorted(self.macros)[h % len(self.macros)]]
        self.fail(expr)

    def setRepeat(self, name, c):
        v = self.value(c)
        if not isinstance(v, (list, tuple)):
            v = [v]
        engine = self

        class It:
            i = 0

            def __next__(self):
                if self.i >= len(v):
                    return False
                engine.spend(name)
                engine.rt.set_local(name, v[self.i])
                self.i += 1
                return True
            next = __next__
        return It()

    def translate(self, msgid, domain=None, mapping=None, default=None):
        h = self.spend(str(msgid))
        if h % 17 == 0:
            self.fail(str(msgid))
        if h % 5 == 0 and default is not None:
            msgid = default
        text = str(msgid)
        for k, v in (mapping or {}).items():
            text = text.replace('${%s}' % k, str(v))
        return text

    def evaluateCode(self, lang, code):
        if self.spend(code) % 9 == 0:
            self.fail(code)
        return code


# repeated many times: what a slow or deeply recursive method cannot stand
RUNS = [' ', ' ', ' ', '\t', '\n', '\t', 'x', ' x', 'x ', ';', '; ', 'a x; ', ';;', '&', '<',
        '>', '-', '--', '$', '${', ':', '/', '=', '"', "'", '\r\n', '\n ',
        '&#', '&amp;', '<!--', '<b>', '<p>', '<li>', '</b>', 'a=1 ', '<?',
        '<![', ']', 'x:', '\\', '(', '\xa0', '<br>', '<b></b>']


def run(src):
    return src.choice(RUNS) * src.int(25, 400) + src.choice(['', '!', 'x',
                                                             ' ', '\n'])


LANGS = ['text/server-python', 'text/server-', 'text/javascript', '',
         'TEXT/SERVER-PYTHON', ' text/server-x', 'text/server-python;x', 'x']


def soup_tag(src):
    n = src.choice(TAGS)
    out = '<' + n
    for _ in range(src.count(0, 4, .55)):
        out += src.choice([' ', ' ', ' ', '\n', '', '/', '\t'])
        k = src.draw(13)
        v = src.choice(VALUES)
        if n == 'script' and src.flag(.4):
            out += 'type'
            v = src.choice(LANGS)
        else:
            out += src.choice(DIRS)
        if src.flag(.02):
            v = run(src)
        if k < 8:
            out += '="%s"' % v.replace('"', '&quot;')
        elif k == 8:
            out += "='%s'" % v
        elif k == 9:
            out += '=' + v
        elif k == 10:
            out += '="%s' % v
    return out + src.choice(['>', '>', '>', '>', '/>', ' />', '', ' >',
                             '</%s>' % n, '></%s>' % n])


def soup(src):
    out = []
    stack = []
    for _ in range(src.count(1, 40, .9)):
        k = src.draw(10)
        if k < 4:
            t = soup_tag(src)
            if t.endswith('>') and not t.endswith('/>'):
                stack.append(t[1:].split('>')[0].split(' ')[0].split('\n')[0])
            out.append(t)
        elif k < 7:
            out.append(run(src) if src.flag(.04) else src.choice(TEXT))
        elif k < 9 and stack:
            out.append('</%s>' % stack.pop())
        else:
            out.append('</%s>' % src.choice(TAGS))
    if src.flag(.5):
        while stack:
            out.append('</%s>' % stack.pop())
    return ''.join(out)


NAMES = [t for t in TAGS if t not in ('tal:', ':x')]
KEYS = [d for d in DIRS if ' ' not in d and not d.endswith(':')
        and not d.startswith((':', 'xmlns')) and d.count(':') < 2
        and d != 'TAL:CONTENT']
PLAIN = [t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
         for t in TEXT if t not in ('\x00', '\x1f', '\x0c')]


def tree(src, html, depth=0):
    """Well-formed markup with arbitrary directives."""
    n = src.choice(NAMES)
    out = '<' + n
    for k in src.sample(KEYS, 0, 4, .6 if depth < 6 else .3):
        v = run(src) if src.flag(.02) else src.choice(VALUES)
        if html and src.flag(.06):
            out += ' ' + k
        elif v not in ('\x00',):
            out += ' %s="%s"' % (k, v.replace('&', '&amp;').replace(
                '<', '&lt;').replace('"', '&quot;'))
    if src.flag(.15):
        return out + '/>'
    out += '>'
    for _ in range(src.count(0, 4, .6)):
        if src.flag(.65) and depth < 12:
            out += tree(src, html, depth + 1)
        else:
            out += src.choice(PLAIN)
    return out + '</%s>' % n


def damage(src, text):
    for _ in range(src.count(1, 6, .6)):
        n = len(text)
        i = src.draw(n + 1)
        k = src.draw(7)
        if src.flag(.04):
            j = text.find('<', i)
            if src.flag(.5) and j >= 0:
                i = j
            text = text[:i] + run(src) + text[i:]
        elif k == 0:
            text = text[:i] + text[i + src.int(1, 12):]
        elif k == 1:
            text = text[:i] + src.choice(TEXT) + text[i:]
        elif k == 2:
            j = min(n, i + src.int(1, 60))
            text = text[:j] + text[i:j] + text[j:]
        elif k == 3:
            text = text[:i] + soup_tag(src) + text[i:]
        elif k == 4:
            j = src.draw(n + 1)
            i, j = min(i, j), max(i, j)
            m = src.int(1, 20)
            text = (text[:i] + text[j:j + m] + text[i + m:j]
                    + text[i:i + m] + text[j + m:])
        elif k == 5:
            text = text[:i]
        else:
            # exchange one directive for another
            at = [p for p in range(n) if text.startswith(
                ('tal:', 'metal:', 'i18n:'), p)]
            if at:
                i = src.choice(at)
                j = i
                while j < n and text[j] not in '= \n>/':
                    j += 1
                text = text[:i] + src.choice(DIRS) + text[j:]
    return text[:12000]


def valid(src, html):
    g = Gen(src, Opt(html=html, metal=True, extend=src.flag(.4), i18n=True,
                     onerror=True, maxel=src.choice([3, 8, 14]), macros=2,
                     pre=True))
    return serialise(src.choice(g.library()))


def case(src, ctx):
    html = not src.flag(.45)
    kind = src.draw(4)
    if kind == 3:
        text = tree(src, html)
        if not html:
            text = '<root xmlns:tal="%(tal)s" xmlns:metal="%(metal)s" ' \
                'xmlns:i18n="%(i18n)s" xmlns:x="u" xmlns:svg="v">' % NS_URI \
                + text + '</root>'
    elif kind == 0:
        text = soup(src)
        if not html and src.flag(.8):
            text = '<root xmlns:tal="%(tal)s" xmlns:metal="%(metal)s" ' \
                'xmlns:i18n="%(i18n)s">' % NS_URI + text + '</root>'
    else:
        text = damage(src, valid(src, html))
    data = text
    if not html and src.flag(.4):
        enc = src.choice(ENCODINGS)
        if src.flag(.5):
            text = '<?xml version="1.0" encoding="%s"?>' % enc + text
        try:
            data = text.encode(enc, 'replace')
        except LookupError:
            data = text.encode('utf-8')
        if src.flag(.3):
            i = src.draw(len(data) + 1)
            data = data[:i] + bytes([src.draw(256)]) + data[i + src.draw(3):]
    ctx.show(mode='html' if html else 'xml', source=data)
    ctx.label('html' if html else 'xml')
    file = src.choice([None, 'f.pt'])
    try:
        program, macros = compile_template(data, html, file)
    except PARSE_ERRORS as e:
        ctx.label('refused: ' + type(e).__name__)
        message(e)
        if '<' in text:
            ctx.nontrivial(text)
        return
    except (LookupError, ValueError) as e:
        # what expat raises for an encoding it cannot do
        if html or 'encoding' not in str(e) or 'encoding' not in text:
            raise
        ctx.label('refused: unsupported encoding')
        return
    ctx.label('compiled')
    salt = src.draw(1000)
    kw = {'strictinsert': src.draw(2), 'wrap': src.choice([0, 20, 60]),
          'sourceAnnotations': src.draw(2) if file else 0,
          'i18nInterpolate': 1 - src.draw(2),
          'tal': 0 if src.flag(.1) else 1,
          'metal': 0 if src.flag(.1) else 1}
    ctx.show(salt=salt, options=kw)
    results = []
    for _ in range(2):
        engine = FuzzEngine(Runtime(), salt, macros)
        try:
            out = render(program, macros, engine.rt, engine=engine, **kw)
            ctx.label('rendered')
        except TooBig:
            ctx.label('stopped: too many evaluations')
            return
        except BaseException as e:
            if isinstance(e, PARSE_ERRORS):
                ctx.label('rendering refused: ' + type(e).__name__)
            elif any(e is r for r in engine.raised):
                ctx.label('expression raised')
            else:
                raise
            out = type(e).__name__
        else:
            if len(engine.rt.scopes) != 1:
                raise Violation('%d scopes were left open'
                                % (len(engine.rt.scopes) - 1))
        if engine.rt.problems:
            raise Violation(engine.rt.problems[0])
        results.append(out)
        ctx.evals += 1
    if results[0] != results[1]:
        raise Violation('two renderings differ: %r / %r' % tuple(results))
    if '<' in text:
        ctx.nontrivial(text, {'source': text, 'result': results[0]})
