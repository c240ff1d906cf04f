"""Omitted HTML end tags are implied where HTML says."""
from . import common
from ..core import Violation
from ..engine import Runtime
from ..harness import diff_text
from ..real import METALError
from ..real import TALError
from ..real import compile_template
from ..real import message
from ..real import render

from zope.tal.htmltalparser import EmptyTagError
from zope.tal.htmltalparser import HTMLParseError
from zope.tal.htmltalparser import NestingError
from zope.tal.htmltalparser import OpenTagError

ID = 'C19'
LEVEL = 'exploration'
CASES = {'quick': 500000, 'thorough': 4000000}
RULE = ('a case is a sequence of up to 60 start tags, end tags, void and '
        'self-closed elements, texts, comments and white space over 37 '
        'element names, some with directives; a tag-stack model written '
        'from the documented rules says where end tags are implied or at '
        'which tag the document is refused and why.  Output, error class '
        'and error position are compared, and the output must reproduce '
        'itself.  Non-trivial: an end tag is implied or the document '
        'refused; distinct by source')
ASSUMPTIONS = common.BASE_ASSUMPTIONS
PROBES = {}

HEADINGS = {'h1', 'h2', 'h3', 'h4', 'h5', 'h6'}
BLOCKS = {'blockquote', 'table', 'tr', 'th', 'td', 'thead', 'tfoot', 'tbody',
          'noframe', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'div', 'nav'}
CLOSES = {'tr': {'tr', 'td', 'th'}, 'td': {'td', 'th'}, 'th': {'td', 'th'},
          'li': {'li'}, 'dd': {'dd', 'dt'}, 'dt': {'dd', 'dt'}}
TIGHT = HEADINGS | {'p'} | set(CLOSES)
VOID = ['br', 'img', 'hr', 'input', 'meta', 'link', 'base', 'param', 'area',
        'col', 'basefont', 'isindex', 'frame']
INLINE = ['b', 'i', 'span', 'a', 'em', 'form', 'section', 'x-y', 'center']
GROUPS = [
    ['p', 'h1', 'h2', 'h6', 'div', 'b', 'blockquote', 'p', 'p'],
    ['ul', 'li', 'ol', 'li', 'p', 'b', 'div', 'li'],
    ['dl', 'dt', 'dd', 'dd', 'p', 'i', 'dl'],
    ['table', 'tr', 'td', 'th', 'thead', 'tbody', 'tfoot', 'p', 'td', 'tr'],
    sorted(BLOCKS), ['p'] + sorted(HEADINGS), INLINE,
]
TEXT = ['x', 'one two', ' ', '\n', '  \n', 'y ', ' z', '&amp;', '&nbsp;',
        '<!-- c -->', '<!--c--> ', '\t', '\r\n', 'é ', '<?pi?>', '&#32;']
DIRS = [('tal:condition="str:1"', TALError), ('tal:define="a str:x"', TALError),
        ('tal:attributes="id nothing"', TALError),
        ('i18n:domain="d"', TALError),
        ('metal:define-macro="m%d"', METALError)]


class Open:
    __slots__ = ('name', 'error', 'pos')


class Refused(Exception):
    def __init__(self, cls, pos):
        self.cls = cls
        self.pos = pos


class Doc:
    """Source, model of the parser's tag stack, expected output."""

    def __init__(self, src):
        self.s = src
        self.line = 1
        self.col = 0
        self.source = []
        self.out = ['']
        self.stack = []
        self.implied = 0
        self.macros = 0

    def write(self, text):
        pos = self.line, self.col
        self.source.append(text)
        n = text.count('\n')
        if n:
            self.line += n
            self.col = len(text) - text.rfind('\n') - 1
        else:
            self.col += len(text)
        return pos

    # the rules

    def imply(self):
        e = self.stack.pop()
        if e.error is not None:
            raise Refused(e.error, e.pos)
        self.implied += 1
        white = ''
        if e.name in TIGHT:
            t = self.out[-1].rstrip(' \n\t\r')
            white = self.out[-1][len(t):]
            self.out[-1] = t
        self.out[-1] += '</%s>%s' % (e.name, white)

    def make_room(self, name, pos):
        st = self.stack
        to = None
        if name in CLOSES:
            for i in reversed(range(len(st))):
                if st[i].name in CLOSES[name]:
                    to = i
                elif st[i].name in BLOCKS:
                    break
        elif name in BLOCKS or name in HEADINGS or name == 'p':
            for i in reversed(range(len(st))):
                if st[i].name in BLOCKS:
                    break
                if st[i].name in HEADINGS:
                    raise Refused(OpenTagError, pos)
                if st[i].name == 'p':
                    to = i
        if to is not None:
            while len(st) > to:
                self.imply()

    # what can be written

    def start(self, name, close=''):
        s = self.s
        spelled = name.upper() if s.flag(.05) else name
        attrs = exp = ''
        if s.flag(.2):
            attrs += ' class="c"'
            exp += ' class="c"'
        error = None
        if s.flag(.1) and name not in VOID:
            a, error = s.choice(DIRS)
            if '%' in a:
                a = a % self.macros
                self.macros += 1
            attrs += ' ' + a
        pos = self.write('<%s%s%s>' % (spelled, attrs,
                                       ' /' if close == '/' else ''))
        if name in VOID:
            self.out[-1] += '<%s%s%s>' % (
                name, exp, ' /' if close == '/' else '')
            return
        self.make_room(name, pos)
        if error is not None:
            self.out.append('')     # nothing is moved across
        if close == '/':
            self.out[-1] += '<%s%s />' % (name, exp)
            if error is not None:
                self.out.append('')
            return
        self.out[-1] += '<%s%s>' % (name, exp)
        e = Open()
        e.name, e.error, e.pos = name, error, pos
        self.stack.append(e)

    def end(self, name):
        s = self.s
        spelled = name.upper() if s.flag(.05) else name
        pos = self.write('</%s%s>' % (spelled, s.choice(['', '', '', ' '])))
        if name in VOID:
            raise Refused(EmptyTagError, pos)
        if not any(e.name == name for e in self.stack):
            raise Refused(NestingError, pos)
        while self.stack[-1].name != name:
            self.imply()
        e = self.stack.pop()
        self.out[-1] += '</%s>' % name
        if e.error is not None:
            self.out.append('')

    def text(self):
        t = self.s.choice(TEXT)
        self.write(t)
        self.out[-1] += t

    def generate(self):
        s = self.s
        pool = s.choice(GROUPS)
        if s.flag(.4):
            pool = pool + s.choice(GROUPS)
        wild = .02 if s.flag(.7) else .1
        for _ in range(s.count(1, 60, .93)):
            k = s.draw(10)
            if k < 4:
                self.start(s.choice(pool))
            elif k < 7:
                self.text()
            elif k < 9 and self.stack:
                # mostly something that is open
                i = s.draw(min(len(self.stack), 4))
                e = self.stack[-1 - i]
                if i and not s.flag(.5) and any(
                        o.error for o in self.stack[-i:]):
                    e = self.stack[-1]
                self.end(e.name)
            elif s.flag(wild):
                self.end(s.choice(pool + VOID))
            elif s.flag(.3):
                self.start(s.choice(VOID), s.choice(['', '/']))
            else:
                self.start(s.choice(pool), '/' if s.flag(.3) else '')
        if s.flag(.7):
            for e in reversed(self.stack[:]):
                if e in self.stack and (e.error or s.flag(.6)):
                    self.end(e.name)

    def finish(self):
        while self.stack:
            self.imply()


def case(src, ctx):
    d = Doc(src)
    want = None
    try:
        d.generate()
        try:
            d.finish()
        except Refused as e:
            want = e
    except Refused as e:
        want = e
        # what follows the offending tag does not matter
        for _ in range(src.draw(4)):
            d.write(src.choice(TEXT + ['<p>', '<b>']))
    source = ''.join(d.source)
    ctx.show(source=source, expected=''.join(d.out) if want is None else
             '%s at %r' % (want.cls.__name__, want.pos))
    try:
        program, macros = compile_template(source, True)
    except (TALError, HTMLParseError) as e:
        text = message(e)
        if 'line %d, column %d' % (e.lineno, e.offset + 1) not in text:
            raise Violation('the place %r is not in %r' % (
                (e.lineno, e.offset), text))
        if want is None:
            raise Violation('refused: %s' % e)
        if type(e) is not want.cls:
            raise Violation('refused with %s (%s), expected %s'
                            % (type(e).__name__, e, want.cls.__name__))
        if (e.lineno, e.offset) != want.pos:
            raise Violation('error reported at %r (%s), expected %r'
                            % ((e.lineno, e.offset), e, want.pos))
        ctx.label('refused: ' + type(e).__name__)
        ctx.nontrivial(source, {'source': source, 'error': text})
        return
    if want is not None:
        raise Violation('accepted, expected %s at %r'
                        % (want.cls.__name__, want.pos))
    got = render(program, macros, Runtime(macros=macros), wrap=0)
    expected = ''.join(d.out)
    if got != expected:
        raise Violation('output: ' + diff_text(expected, got))
    program, macros = compile_template(got, True)
    again = render(program, macros, Runtime(macros=macros), wrap=0)
    if again != got:
        raise Violation('output does not reproduce itself: '
                        + diff_text(got, again))
    ctx.evals += 1
    ctx.label('implied end tags: %s' % min(d.implied, 5))
    if d.implied:
        ctx.nontrivial(source, {'source': source, 'output': got})
