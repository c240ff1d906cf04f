"""Static XML keeps its information set."""
from xml.parsers import expat

from . import common
from .c01 import options
from ..core import HarnessError
from ..core import Violation
from ..engine import Runtime
from ..harness import diff_text
from ..infoset import events
from ..real import compile_template
from ..real import render
from ..static import clean

ID = 'C02'
LEVEL = 'exploration'
CASES = {'quick': 400000, 'thorough': 6000000}
RULE = ('a case is a namespace-well-formed XML document without template '
        'markup: namespace declarations, redeclarations and undeclarations '
        'at any level, prefixed names, several prefixes for one namespace, '
        'CDATA, comments, processing instructions, XML declaration, document '
        'type with internal subset (entities, default attributes).  Source '
        'and output are parsed by a separate expat parser and all reported '
        'events compared; the output is rendered again.  Non-trivial: more '
        'than one element or other node; distinct by source')
ASSUMPTIONS = [
    'expat tokenises correctly',
    'excluded by construction (open findings): attribute values that contain '
    'a complete reference, a tab or a line break once decoded; CDATA end '
    'marks in attribute values are kept',
    'at most two dozen elements, depth at most 8']
PROBES = {
    'escaped-entity': lambda: common.probe(
        ['<p title="a&amp;lt;b"/>'], '<p title="a&lt;b"/>', html=False),
    'attribute-newline': lambda: common.probe(
        ['<p title="a&#10;b"/>'], '<p title="a\nb"/>', html=False),
}

NAMES = ['a', 'b', 'item', 'Mixed', 'x-y', 'd.e', 'é', '_u', 'br', 'p', 'script',
         'content', 'xmlns-x', 'tal', 'define']
PREFIXES = ['p', 'q', 'tal', 'metal', 'i18n', 'X', 'é', 'a.b']
URIS = ['urn:one', 'urn:two', 'http://x/y?a=1', 'http://xml.zope.org/namespaces',
        'urn:one/', 'urn:é']
TEXT = [' ', 'one', '\n', '\n  ', '\t', '&amp;', '&lt;', '&gt;', '&quot;',
        '&apos;', '&#65;', '&#x41;', '&#10;', '&#13;', '&#9;', '>', '"', "'", '=',
        'é', '日', '😀', '\r\n', '${x}', '%s', '-->', '?>', '\xa0', '\x85', ' ',
        ']]', '&#x3c;b&#x3e;', '/>', ']', '&#38;amp;', '\u2028', '\u200b',
        '\x7f', '\u202e', '\ufeff', '\ud7ff', '\xad', '&#x10FFFF;']
VALUE = ['', 'x', 'one two', '<', '>', '&', '"', "'", ' ', '=', '  ', '-->', 'é',
         '日', '${x}', ']]>', '{', '?a=1&', '/', '😀', ';', '\xa0', '\x85', 'EN-us', 'Two', '\u2028', '\x7f', '\u200b']
COMMENT = ['', ' ', 'x', '<b>', '&', '&amp;', '"', '\n', '>', 'é', ']]>',
           '- ', '?>', 'tal:content']
CDATA = ['', ' ', 'x', '<b>', '&', '&amp;', ']', ']]', '\n', '>', '"', '<!--',
         'é', '<![CDATA[', '\r\n']


class StaticXML:
    def __init__(self, src, maxel):
        self.s = src
        self.left = maxel
        self.kinds = set()
        self.entities = []
        self.skipped = False    # undeclared entities are allowed in text

    def value(self, q):
        s = self.s
        v = clean(''.join(s.many(lambda: s.choice(VALUE), 0, 4, .5)))
        out = []
        for c in v:
            if c == '<':
                out.append(s.choice(['&lt;', '&#60;', '&#x3C;']))
            elif c == '&':
                out.append(s.choice(['&amp;', '&#38;', '&#x26;']))
            elif c == q:
                out.append('&quot;' if c == '"' else '&apos;')
            elif s.flag(.08):
                out.append(s.choice(['&#%d;', '&#x%x;']) % ord(c))
            else:
                out.append(c)
        t = ''.join(out)
        if s.flag(.06):
            # literal line breaks are read as spaces
            t += s.choice(['\n', '\t', '\r\n'])
        if self.entities and s.flag(.2):
            t += '&%s;' % s.choice(self.entities)
            self.kinds.add('entity in attribute')
        return t

    def name(self, scope, attr=False):
        """A qualified name that is in scope."""
        s = self.s
        prefixes = sorted(p for p in scope if p)
        if prefixes and s.flag(.4):
            self.kinds.add('prefixed attribute' if attr else
                           'prefixed element')
            return s.choice(prefixes) + ':' + s.choice(NAMES)
        return s.choice(NAMES)

    def element(self, scope, depth):
        s = self.s
        self.left -= 1
        decl = []
        if s.flag(.3):
            scope = dict(scope)
            for p in s.sample(PREFIXES, 0, 3, .5):
                uri = s.choice(URIS)
                if p in scope:
                    self.kinds.add('prefix redeclared')
                scope[p] = uri
                decl.append(('xmlns:' + p, uri))
            if s.flag(.3):
                uri = s.choice(URIS + [''])
                if uri == '':
                    self.kinds.add('default namespace undeclared')
                else:
                    self.kinds.add('default namespace')
                decl.append(('xmlns', uri))
            if decl:
                self.kinds.add('namespace declaration')
        name = self.name(scope)
        attrs = []
        used = set()
        for i in range(s.count(0, 4, .45)):
            a = self.name(scope, True)
            if s.flag(.1):
                a = s.choice(['xml:lang', 'xml:space', 'xml:base'])
            p, _, local = a.rpartition(':')
            key = (scope.get(p, p) if p else None, local)
            if key in used:
                continue
            used.add(key)
            q = '"' if s.flag(.7) else "'"
            attrs.append(f'{a}={q}{self.value(q)}{q}')
        parts = [f'{k}="{v}"' for k, v in decl] + attrs
        for i in range(len(parts) - 1, 0, -1):
            j = s.draw(i + 1)
            parts[i], parts[j] = parts[j], parts[i]
        sp = s.choice([' ', ' ', '\n  '])
        tag = '<' + name + ''.join(sp + p for p in parts)
        if s.flag(.25):
            return tag + s.choice(['/>', ' />'])
        return (tag + s.choice(['>', '>', ' >']) + self.content(scope, depth)
                + f'</{name}' + s.choice(['>', '>', ' >']))

    def content(self, scope, depth):
        s = self.s
        out = ''
        n = 0
        while n < 6 and s.flag(.62):
            n += 1
            k = s.draw(10)
            if k < 4 or self.left <= 0 or depth > 7:
                t = ''.join(s.many(lambda: s.choice(TEXT), 1, 4, .5))
                out += (' ' if out.endswith(']') else '') \
                    + t.replace(']]>', ']] >')
                if self.entities and s.flag(.2):
                    out += '&%s;' % s.choice(self.entities)
                    self.kinds.add('entity in text')
                if self.skipped and s.flag(.3):
                    out += s.choice(['&nbsp;', '&no-such;'])
                    self.kinds.add('skipped entity')
            elif k < 8:
                out += self.element(scope, depth + 1)
            else:
                out += self.misc()
        return out

    def misc(self, prolog=False):
        s = self.s
        k = s.draw(2 if prolog else 3)
        if k == 0:
            self.kinds.add('comment')
            t = ''.join(s.many(lambda: s.choice(COMMENT), 0, 3))
            while '--' in t or t.endswith('-'):
                t = t.replace('--', '- ') + ' '
            return '<!--%s-->' % t
        if k == 1:
            self.kinds.add('processing instruction')
            return s.choice(['<?x?>', '<?php a<b ?>', '<?y  z="1"\n?>',
                             '<?xml-stylesheet href="a&amp;b"?>', '<?a >?>'])
        self.kinds.add('CDATA')
        t = ''.join(s.many(lambda: s.choice(CDATA), 0, 3))
        t = t.replace(']]>', ']] >')
        return '<![CDATA[%s]]>' % t

    def document(self):
        s = self.s
        out = ''
        if s.flag(.3):
            self.kinds.add('XML declaration')
            out += s.choice(['<?xml version="1.0"?>',
                             "<?xml version='1.0' encoding='utf-8'?>",
                             '<?xml version="1.0" encoding="UTF-8" '
                             'standalone="yes"?>',
                             '<?xml version="1.0" standalone="no" ?>'])
        while s.flag(.15):
            out += s.choice(['\n', self.misc(True)])
        if s.flag(.25):
            self.kinds.add('document type')
            out += '<!DOCTYPE ' + s.choice(['root', 'x:y', 'html'])
            k = s.draw(4)
            if k == 1:
                out += s.choice([' SYSTEM "a.dtd"', " SYSTEM 'b.dtd'"])
            elif k == 2:
                out += ' PUBLIC "-//x//y" "http://a/b.dtd"'
            if k == 3 or s.flag(.2):
                self.kinds.add('internal subset')
                out += ' [' + self.subset() + ']'
            if k in (1, 2) and 'standalone="yes"' not in out:
                self.skipped = True
            out += s.choice(['>', ' >', '>\n'])
        out += self.element({}, 0)
        while s.flag(.15):
            out += s.choice(['\n', self.misc(True)])
        return out

    def subset(self):
        s = self.s
        out = ''
        while s.flag(.6):
            k = s.draw(8)
            if k == 0:
                n = 'e%d' % len(self.entities)
                self.entities.append(n)
                out += '<!ENTITY %s "%s">' % (n, s.choice(
                    ['x', 'one two', '', 'é', "it's", ' x ', 'A', '\n',
                     'a&#38;#38;b']))
            elif k == 1:
                out += '<!ELEMENT %s (#PCDATA)>' % s.choice(NAMES)
            elif k == 2:
                self.kinds.add('default attribute')
                out += '<!ATTLIST %s d%d CDATA "dflt">' % (
                    s.choice(NAMES), s.draw(3))
            elif k == 3:
                out += '<!NOTATION n SYSTEM "n.gif">'
            elif k == 4:
                out += '<!ELEMENT %s %s>' % (s.choice(NAMES), s.choice([
                    'EMPTY', 'ANY', '(a|b)*', '(a, b?, (d.e | p)+)',
                    '(#PCDATA | a)*']))
            elif k == 5:
                out += '<!ATTLIST %s f%d %s>' % (
                    s.choice(NAMES), s.draw(3), s.choice([
                        'CDATA #IMPLIED', 'NMTOKENS #IMPLIED', 'ID #IMPLIED',
                        '(on|off) "off"', 'CDATA #FIXED "Fx"',
                        "CDATA 'say \"x\"'", 'NMTOKEN "N1"',
                        'CDATA " a  b "']))
            elif k == 6:
                out += s.choice([
                    '<!NOTATION m PUBLIC "-//m">',
                    '<!ENTITY g%d SYSTEM "g.gif" NDATA n>' % s.draw(3),
                    '<!ENTITY x%d SYSTEM "x.xml">' % s.draw(3),
                    '<!ENTITY %% p%d "x y">' % s.draw(3)])
            else:
                out += s.choice(['\n', '<!-- in subset -->', '<?pi in?>'])
        return out


def case(src, ctx):
    g = StaticXML(src, src.choice([4, 10, 24]))
    source = g.document()
    if src.flag(.01):
        ctx.label('long')
        at = source.find('?>') + 2 if source.startswith('<?xml ') else 0
        source = '%s<!--%s-->%s' % (
            source[:at], common.padding(src, len(source)), source[at:])
    kw = options(src)
    ctx.show(source=source, options=kw)
    try:
        want = events(source)
    except expat.ExpatError as e:
        raise HarnessError('not well-formed: %s: %r' % (e, source))
    for k in g.kinds:
        ctx.label(k)
    rt = Runtime()
    program, macros = compile_template(source, False)
    got = render(program, macros, rt, **kw)
    ctx.show(output=got)
    try:
        have = events(got)
    except expat.ExpatError as e:
        raise Violation('output is not well-formed (%s): %r' % (e, got))
    if want != have:
        i = 0
        while i < min(len(want), len(have)) and want[i] == have[i]:
            i += 1
        raise Violation('event %d is %r, was %r' % (
            i, have[i:i + 2], want[i:i + 2]))
    if rt.trace or macros:
        raise Violation('evaluated %r' % rt.trace)
    program, macros = compile_template(got, False)
    again = render(program, macros, rt, **kw)
    if again != got:
        raise Violation('rendered again: ' + diff_text(got, again))
    if len(want) > 2:
        ctx.nontrivial(source, {'source': source, 'output': got})
