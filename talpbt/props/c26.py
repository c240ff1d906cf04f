"""All ways to feed and render a document agree."""
import codecs
import os
import sys
from io import BytesIO
from io import StringIO
from pathlib import Path

from . import common
from ..core import Violation
from ..dummy import DummyGen
from ..engine import Compiler
from ..gen import Opt
from ..gen import VARS
from ..harness import diff_text
from ..real import HTMLTALParser
from ..real import PARSE_ERRORS
from ..real import TALError
from ..real import TALGenerator
from ..real import TALInterpreter
from ..real import TALParser
from ..real import attempt
from ..real import message
from ..real import render
from ..tmpl import NS_URI
from ..tmpl import serialise

from zope.tal import driver
from zope.tal.dummyengine import DummyEngine

ID = 'C26'
LEVEL = 'exploration'
CASES = {'quick': 100000, 'thorough': 2000000}
RULE = ('a case is a generated document and one way to feed it (text, bytes '
        'in a declared encoding, file, stream, URL, pieces, or the driver '
        'with an extension and options), compared with the text given '
        'directly and the same rendering options: output, evaluations, '
        'positions and, for broken documents, error class and position.  '
        'Non-trivial: not plain ASCII text, or the driver; distinct by '
        'document, route and options')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'HTML files are read in the locale encoding (UTF-8 here) with line ends '
    'normalised',
]
PROBES = {}

ENCODINGS = ['utf-8', 'UTF-8', 'iso-8859-1', 'ISO-8859-15', 'us-ascii',
             'utf-16', 'windows-1252', 'koi8-r', 'cp437', 'UTF-16LE']
SPECIAL = ['é', 'ü', 'ß', '€', '日', 'я', '\xa0', '😀', 'x']


def scratch(name, data):
    path = os.path.join(os.environ['TALPBT_TMP'], '%d-%s' % (os.getpid(),
                                                             name))
    with open(path, 'wb') as f:
        f.write(data)
    return path


def pieces(src, data):
    out = []
    rest = data
    while rest:
        n = src.int(1, max(1, min(len(rest), 60)))
        out.append(rest[:n])
        rest = rest[n:]
        if len(out) > 30:
            out.append(rest)
            break
    return out or [data]


def feed(parser, route, data, src, ext):
    """Give the data to a parser."""
    if route == 'string':
        parser.parseString(data)
    elif route == 'file':
        path = scratch('doc' + ext, data)
        try:
            parser.parseFile(path)
        except TALError as e:
            if ext == '.html' and path not in message(e):
                raise Violation('error in a file: %s' % e)
            raise
        finally:
            os.unlink(path)
    elif route == 'stream':
        parser.parseStream(BytesIO(data))
    elif route == 'url':
        path = scratch('doc' + ext, data)
        try:
            parser.parseURL(Path(path).as_uri())
        finally:
            os.unlink(path)
    else:
        for p in pieces(src, data):
            parser.parseFragment(p)
        parser.parseFragment(data[:0], 1)


def program(html, file, encoding, route, data, src):
    gen = TALGenerator(Compiler(), xml=0 if html else 1, source_file=file)
    parser = HTMLTALParser(gen) if html else TALParser(gen, encoding)
    feed(parser, route, data, src, '.html' if html else '.xml')
    return parser.getCode()


def outcome(c, *args):
    """What happens: error class and position, or rendering facts."""
    try:
        p, m = program(c.html, 'f.pt', *args)
    except PARSE_ERRORS as e:
        off = getattr(e, 'offset', None)
        return (type(e).__name__, getattr(e, 'lineno', None), off)
    macros = dict(m)
    rt = c.runtime(macros)
    o = attempt(render, p, m, rt, wrap=0, strictinsert=c.strict)
    return (o.text, o.error, rt.trace, rt.where, rt.translations,
            sorted(m))


def unmarked(o):
    """The byte order mark counts as a column of the first line."""
    if len(o) == 3:
        return (o[0], o[1], o[2] if o[1] != 1 else None)
    return o[:3] + ([(f, p if not p or p[0] != 1 else None)
                     for f, p in o[3]],) + o[4:]


def routes(src, ctx):
    s = src
    html = s.flag(.25)
    lib = s.flag(.2)
    c = common.make(s, html=html, library=False, metal=lib, i18n=s.flag(.3),
                    maxel=8, p_dir=.5, multiline=not html, structure=False)
    text = c.sources[0]
    if html:
        text = text.replace('\r', '')
    if s.flag(.02):
        ctx.label('long')
        pad = common.padding(s, len(text))
        text = pad + text if html else '<!--%s-->%s' % (pad, text)
    extra = ''.join(s.many(lambda: s.choice(SPECIAL), 0, 4, .7))
    text = text.replace('one', 'one' + extra)
    broken = s.flag(.15)
    if broken:
        at = s.draw(len(text) + 1)
        text = text[:at] + s.choice(['<', '</x>', '<b tal:repeat="x">', '&',
                                     '<b tal:foo="x"/>', '"']) + text[at:]
    encoding = None
    if html:
        route = 'file'
        reference = text
        if s.flag(.3):
            text = text.replace('\n', s.choice(['\r\n', '\r']))
        data = text.encode('utf-8')
    else:
        enc = s.choice(ENCODINGS)
        declared = s.flag(.75)
        given = declared and s.flag(.1) or not declared and (
            enc.lower() != 'utf-8' or s.flag(.3))
        if enc == 'UTF-16LE':
            # known only from outside: there is no byte order mark
            declared, given = False, True
        if given and enc == 'utf-16':
            given, declared = False, True
        # no other characters than the encoding knows
        text = text.encode(enc, 'replace').decode(enc)
        decl = '<?xml version="1.0" encoding="%s"?>%s' % (
            enc, s.choice(['', '\n'])) if declared else s.choice(
                ['', '<?xml version="1.0"?>'])
        reference = decl + text
        # the declaration names another encoding than the one given
        if given:
            encoding = enc
            if declared and s.flag(.5):
                reference = reference.replace(
                    'encoding="%s"' % enc, 'encoding="iso-8859-2"')
        route = s.choice(['string', 'string', 'file', 'stream', 'url',
                          'pieces'])
        data = reference.encode(enc)
        if s.flag(.15):
            # text by another route
            data, encoding = reference, None
            route = s.choice(['string', 'pieces'])
    ctx.show(mode='html' if html else 'xml', document=reference, route=route,
             encoding=encoding, kind=type(data).__name__)
    ctx.label('route: %s %s' % (route, type(data).__name__))
    want = outcome(c, None, 'string', reference, s)
    got = outcome(c, encoding, route, data, s)
    if data[:2] == codecs.BOM_UTF16:
        want, got = unmarked(want), unmarked(got)
    if want != got:
        if len(want) == 6 == len(got) and want[0] != got[0] and not want[1]:
            raise Violation('output: ' + diff_text(want[0], str(got[0])))
        raise Violation('expected %r\n     got %r' % (want, got))
    ctx.label('broken' if len(want) == 3 else 'compiles')
    if not reference.isascii() or len(want) == 3:
        ctx.nontrivial((reference, route, encoding, type(data).__name__),
                       {'document': reference, 'route': route,
                        'encoding': encoding})



def document(src, html):
    g = DummyGen(src, Opt(html=html, i18n=src.flag(.3), metal=src.flag(.4),
                          extend=False, errors=src.flag(.2),
                          onerror=src.flag(.3), maxel=8, p_dir=.7,
                          attrs_expr=False, macroname=False,
                          usedefault=False, multiline=False, lenient=True,
                          paths=False))
    docs = g.library() if g.o.metal else [g.document()]
    nodes = [n for d in docs for n in (d if html else d[0].kids)]
    text = serialise(nodes)
    for i in range(4):
        text = text.replace('mac:m%d' % i, 'm%d' % i)
    defs = 'tal:define="%s"' % '; '.join(
        'global %s str:%s0' % (v, v) for v in VARS)
    if html:
        return '<div %s>%s</div>' % (defs, text.replace('\r', ''))
    return '<root%s %s>%s</root>' % (''.join(
        f' xmlns:{k}="{v}"' for k, v in NS_URI.items()), defs, text)


class Capture:
    """sys.argv and sys.stdout replaced while the driver runs."""

    def __init__(self, argv):
        self.argv = argv

    def __enter__(self):
        self.saved = sys.argv, sys.stdout
        sys.argv = self.argv
        sys.stdout = self.out = StringIO()
        return self.out

    def __exit__(self, *exc):
        sys.argv, sys.stdout = self.saved


FLAGS = [('-l', '--lenient'), ('-m', '--macro-only'), ('-t', '--show-tal'),
         ('-i', '--show-i18n'), ('-a', '--annotate')]


def by_api(text, html, file, on):
    gen = TALGenerator(xml=0 if html else 1, source_file=file)
    p = HTMLTALParser(gen) if html else TALParser(gen)
    p.parseString(text)
    prog, macros = p.getCode()
    out = StringIO()
    TALInterpreter(
        prog, macros, DummyEngine(macros), out, wrap=0,
        tal=0 if '-m' in on else 1, showtal=1 if '-t' in on else -1,
        strictinsert=0 if '-l' in on else 1,
        i18nInterpolate=0 if '-i' in on else 1,
        sourceAnnotations=1 if '-a' in on else 0)()
    return out.getvalue()


def by_driver(argv, path):
    with Capture(argv + [path]) as out:
        driver.main()
    return out.getvalue()


def by_functions(path, mode, on):
    it = driver.compilefile(path, mode)
    out = StringIO()
    driver.interpretit(
        it, stream=out, tal=0 if '-m' in on else 1,
        showtal=1 if '-t' in on else -1,
        strictinsert=0 if '-l' in on else 1,
        i18nInterpolate=0 if '-i' in on else 1,
        sourceAnnotations=1 if '-a' in on else 0)
    return out.getvalue()


def drive(src, ctx):
    s = src
    html = not s.flag(.4)
    text = document(s, html)
    ext, guess = s.choice([('.html', True), ('.htm', True), ('.HTML', True),
                           ('.Htm', True), ('.xml', False), ('.pt', False),
                           ('', False), ('.xhtml', False), ('.html.xml',
                                                            False)])
    mode = None
    if guess != html or s.flag(.3):
        mode = 'html' if html else 'xml'
    argv = ['driver.py']
    if mode:
        argv.append(s.choice(['-H', '--html'] if html else ['-x', '--xml']))
    on = set()
    for short, full in FLAGS:
        if s.flag(.3):
            on.add(short)
            argv.append(s.choice([short, full]))
    ctx.show(document=text, extension=ext, argv=argv)
    ctx.label('driver ' + ' '.join(sorted(on)))
    path = scratch('doc' + ext, text.encode('utf-8'))
    given = path
    cwd = os.getcwd()
    if s.flag(.25):
        ctx.label('relative path')
        folder, name = os.path.split(path)
        given = s.choice([name, './' + name, '../%s/%s' % (
            os.path.basename(folder), name)])
        os.chdir(folder)
    try:
        want = attempt(by_api, text, html, path, on)
        got = attempt(by_driver, argv, given)
        also = attempt(by_functions, given, mode, on)
    finally:
        os.chdir(cwd)
        os.unlink(path)
    for how, g in (('driver', got), ('functions', also)):
        if want.error != g.error:
            raise Violation('%s: expected %r, got %r' % (how, want, g))
        if want.text != g.text:
            raise Violation('%s: output: %s' % (how, diff_text(want.text,
                                                               g.text)))
    ctx.label('driver fails' if want.error else 'driver renders')
    ctx.nontrivial((text, ext, argv),
                   {'document': text, 'extension': ext, 'argv': argv})


def case(src, ctx):
    if src.flag(.4):
        drive(src, ctx)
    else:
        routes(src, ctx)
