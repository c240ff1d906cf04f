"""Inline server-side code blocks are run once and replaced by their output."""
import contextlib
from io import StringIO

from . import common
from ..core import Violation
from ..gen import VARS
from ..harness import Case
from ..harness import compare
from ..harness import diff_text
from ..harness import fits
from ..model import Prep
from ..real import attempt
from ..real import compile_template
from ..real import render
from ..tmpl import El
from ..tmpl import Raw
from ..tmpl import walk

from zope.tal.dummyengine import DummyEngine

ID = 'C27'
LEVEL = 'exploration'
CASES = {'quick': 120000, 'thorough': 2000000}
RULE = ('a case is a generated template (HTML or XML) with script elements '
        'of server-side and other types, and elements with the inline code '
        'statement, under conditions, loops, macros and error handlers, with '
        'arbitrary bodies; output and everything the engine is asked (code, '
        'language, order) are compared with the reference model, optionally '
        'with a failure injected.  Or it is a generated Python snippet run '
        'by the bundled engine and compared with running it directly.  '
        'Non-trivial: some code was run; distinct by sources')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'server-side script elements have an end tag',
    'no other statement supplies the content of an element with inline code',
]
PROBES = {}

LANGS = ['text/server-python', 'text/server-x', 'text/server-',
         'text/server-é', 'text/server-python; v=1', 'text/server-Perl_6 ']
OTHER = ['text/javascript', 'server-python', 'text/serverpython', 'module',
         ' text/server-python', 'x-text/server-python', 'text/server', '',
         'application/text/server-x', 'Text/Server-python',
         'TEXT/SERVER-X', 'text/Server-x', None]
BODY = ['x = 1', '\n', '  ', 'print("<b>")', '<b>', '</b>', '<p tal:content='
        '"str:x">', '&amp;', '&', '&lt;', '&#65;', '<', '>', '"', "'", '<!--',
        '-->', '//', '\r\n', '\t', 'é', '日', '</', '</scr', '<?php x ?>',
        '<![CDATA[', ']]>', '<a metal:use-macro="m">', '${x}', ';;', '<!x>',
        '</p >', 'a<b', '\\', '%s', '<br/>', '</style>', '<%', '%>']


class Scripts(Case):
    """Elements marked in the source become what the model understands."""

    def __init__(self, *args, **kw):
        Case.__init__(self, *args, **kw)
        self.mmacros.clear()
        for d in self.docs:
            for e in walk(d):
                t = e.get(None, 'type')
                if (self.html and e.tag.lower() == 'script' and not e.nstag
                        and t and t.startswith('text/server-')
                        and e.close == 'full'):
                    e.items = [i for i in e.items if i[:2] not in (
                        (None, 'type'), ('tal', 'omit-tag'))]
                    e.put('tal', 'script', t)
                    e.put('tal', 'omit-tag', '')
        self.preps = [Prep(d, self.html, self.mmacros, self.prefixes)
                      for d in self.docs]


def body(src):
    return ''.join(src.many(lambda: src.choice(BODY), 0, 6, .75))


def script(src, g):
    """A script element."""
    s = src
    e = El('SCRIPT' if s.flag(.1) else 'script')
    server = s.flag(.7)
    if server or s.flag(.8):
        e.put(None, 'type', s.choice(LANGS if server else OTHER))
    for n in s.sample(['src', 'id', 'defer', 'title', 'data-type', 'language',
                       'types', 'x:type'], 0, 2, .3):
        e.put(None, n, 'text/server-python' if s.flag(.3) else 'v')
    if s.flag(.5):
        if s.flag(.3):
            e.put('tal', 'define', g.a_define())
        if s.flag(.4):
            e.put('tal', 'condition', g.x_bool())
        if s.flag(.4):
            e.put('tal', 'repeat', g.a_repeat())
        if s.flag(.3):
            e.put('tal', 'attributes', g.join(['title ' + g.x_text()]))
        if s.flag(.2):
            e.put('tal', 'omit-tag', s.choice(['', 'nothing', 'str:1']))
        if s.flag(.3):
            e.put('tal', 'on-error', 'str:failed')
        if s.flag(.5):
            g.shuffle(e)
    e.kids = [Raw(body(s))]
    return e


def insert(src, g, nodes, depth=0):
    """Put script elements anywhere."""
    for e in list(walk(nodes)):
        if e.close == 'full' and src.flag(.25):
            e.kids.insert(src.draw(len(e.kids) + 1), script(src, g))
    if src.flag(.7):
        nodes.insert(src.draw(len(nodes) + 1), script(src, g))


def mark(src, nodes):
    """Give some elements the inline code statement."""
    for e in walk(nodes):
        if (e.close == 'full' and e.directive and src.flag(.4)
                and not e.has('tal', 'content')
                and not e.has('tal', 'replace')
                and not e.has('i18n', 'translate')
                and not e.has('metal', 'use-macro')
                and not e.has('metal', 'extend-macro')
                and e.tag.lower() != 'script'):
            e.put('tal', 'script', src.choice(LANGS + ['python', 'x y']))


def template(src, ctx):
    s = src
    html = s.flag(.75)
    lib = s.flag(.25)

    def build(docs, g, html, **kw):
        for d in docs:
            mark(s, d)
            if html:
                insert(s, g, d)
        return Scripts(docs, g, html, **kw)
    c = common.make(s, rename=0, html=html, library=lib, metal=lib, maxel=7, p_dir=.6,
                    attrs_expr=False, onerror=s.flag(.4), errors=s.flag(.2),
                    structure=False, i18n=s.flag(.15), files=True, cls=build)
    c.show(ctx)
    common.label_docs(ctx, c.docs)
    ctx.label('html' if html else 'xml')
    fault = {}
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    if m[1].ticks and s.flag(.2):
        fault = {'fault_at': s.draw(m[1].ticks)}
        ctx.show(**fault)
        m = fits(c, **fault)
        if m is None:
            return
    mo, mrt = m
    ro, rrt = c.real(**fault)
    compare(c, mo, mrt, ro, rrt)
    n = sum(1 for k, e in mrt.trace if k == 'code')
    ctx.label('code runs: %s' % (n if n < 3 else '3+'))
    if n:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data], fault),
                       {'sources': c.sources, 'output': ro.text})


# the bundled engine ------------------------------------------------------

def statements(src, depth=0):
    s = src
    out = []
    for _ in range(s.count(1, 4, .6)):
        k = s.draw(7)
        if k < 2:
            out.append('print(%r)' % s.choice(['x', '<b>', 'é', '&', '']))
        elif k == 2:
            out.append('%s = %r' % (s.choice(VARS), s.choice(
                [1, 'v', (1, 2), None])))
        elif k == 3:
            v = s.choice(VARS)
            out.append('%s = 5' % v)
            out.append('print(%s)' % v)
        elif k == 4 and depth < 2:
            out.append('for i in range(%d):' % s.int(0, 3))
            out += ['  ' + x for x in statements(s, depth + 1)]
        elif k == 5 and depth < 2:
            out.append('if %d:' % s.int(0, 1))
            out += ['    ' + x for x in statements(s, depth + 1)]
        else:
            out.append('# comment < > &')
            out.append('pass')
    return out


def snippet(src, ctx):
    s = src
    form = s.draw(3)
    lines = statements(s)
    if form == 1:
        # this body is markup
        lines = [x.replace('<', 'l').replace('&', '+') for x in lines]
    direct = StringIO()
    names = {}
    with contextlib.redirect_stdout(direct):
        exec('\n'.join(lines), {}, names)
    want = direct.getvalue()
    indent = s.choice(['', '', '    ', '\t', ' '])
    text = '\n'
    for x in lines:
        if s.flag(.2):
            text += s.choice(['', ' ', '\t ']) + '\n'
        text += indent + x + '\n'
    if s.flag(.3):
        text = s.choice([' <!--', '<!--', '\n<!-- ']) + text + '-->' \
            + s.choice(['', '\n', ' '])
    if form == 0:
        source = '<script type="text/server-python">%s</script>' % text
    elif form == 1:
        source = '<p tal:script="text/server-python">%s</p>' % text
        want = '<p>%s</p>' % want
    else:
        source = '<div><script type="text/server-python">%s</script></div>' \
            % text
        want = '<div>%s</div>' % want
    # what the code defined is gone afterwards
    for v in sorted(names):
        source += '<i tal:content="exists:%s"></i>' % v
        want += '<i>False</i>'
    ctx.show(source=source, expected=want)
    program, macros = compile_template(source, True, None, DummyEngine())
    engine = DummyEngine(macros)
    got = attempt(render, program, macros, None, engine, wrap=0)
    if got.error or got.text != want:
        raise Violation('bundled engine: ' + (
            diff_text(want, got.text) if not got.error else repr(got)))
    ctx.label('snippet')
    ctx.nontrivial(source, {'source': source, 'output': got.text})


def case(src, ctx):
    if src.flag(.15):
        snippet(src, ctx)
    else:
        template(src, ctx)
