"""Source annotations only add comments."""
import re
from io import StringIO

from . import common
from ..core import Violation
from ..engine import Engine
from ..gen import Gen
from ..gen import Opt
from ..gen import walk_el
from ..harness import Case
from ..harness import diff_text
from ..harness import fits
from ..real import TALInterpreter
from ..tmpl import El
from ..tmpl import Raw

ID = 'C20'
LEVEL = 'exploration'
CASES = {'quick': 80000, 'thorough': 800000}
RULE = ('a case is a generated set of macro documents from several files '
        '(HTML or XML, optional XML declaration), rendered with and without '
        'source annotations.  Stripped of the comments the output, and all '
        'evaluations and translations, must be the same; an XML declaration '
        'stays first; text marks put into every document say which file and '
        'region the output after each comment comes from: file, and line '
        'between the start of the region and the mark, must agree, and '
        'every change of file must be announced.  Non-trivial: at least two '
        'comments; distinct by sources and values')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'inside translation units output is not annotated']
PROBES = {}

NOTE = re.compile(r'<!--\n={78}\n(.*?)(?: \(line (\d+)\))?\n={78}\n-->')
OPENING = re.compile(r'<(?!img|br|input|hr|meta|link)[^\W\d][^<>]*(?<!/)>|\s+',
                     re.I)
MARK = re.compile(r'\{\{(\d+)\.(\d+)\}\}')


NAMES = ['/a/b c/f%d.pt', 'é%d', 'f--%d.pt', '%d-->', '<f%d>', '&f%d;',
         '-%d---', 'f%d:12', '--!>%d', 'C:\\f%d.pt', '%d']


class Brief(TALInterpreter):
    """Annotations in another format."""

    def formatSourceAnnotation(self):
        return '@@%s@@' % NOTE.fullmatch(
            TALInterpreter.formatSourceAnnotation(self)).group(1)


def written(name):
    """Two hyphens may not follow each other in a comment."""
    return re.sub('-(?=-)', '- ', name)


def brief(c, kw):
    program, macros = c.programs[-1]
    out = StringIO()
    Brief(program, macros, Engine(c.runtime(c.rmacros)), out, **kw)()
    return out.getvalue()


def fill_marks(src, kids, doc, n=None):
    """Put numbered marks between the children."""
    if n is None:
        n = [0]
    out = []

    def put():
        out.append(Raw('%s{{%d.%d}}%s' % (
            src.choice(['', '\n', ' ', '\n\n']), doc, n[0],
            src.choice(['', '\n', ' ']))))
        n[0] += 1
    for k in kids:
        if src.flag(.6):
            put()
        out.append(k)
        if type(k) is El and k.close == 'full':
            fill_marks(src, k.kids, doc, n)
    if src.flag(.6):
        put()
    kids[:] = out


def case(src, ctx):
    html = not src.flag(.45)
    i18n = src.flag(.25)
    scripts = src.flag(.15)
    failing = src.flag(.15)
    g = Gen(src, Opt(html=html, names=True, metal=True, extend=src.flag(.4), i18n=i18n,
                     onerror=failing or src.flag(.2),
                     errors=failing or src.flag(.1),
                     tal=not src.flag(.2), maxel=12, macros=3,
                     structure=src.flag(.3), inline=src.flag(.3),
                     scripts=scripts))
    docs = g.library()
    if html:
        for i, d in enumerate(docs):
            fill_marks(src, d, i)
    else:
        for i, d in enumerate(docs):
            fill_marks(src, d[0].kids, i)
            if src.flag(.5):
                d.insert(0, Raw(src.choice(
                    ['<?xml version="1.0"?>', '<?xml\nversion="1.0" ?>',
                     '<?xml\tversion="1.0"?>']) + src.choice(
                    ['', '\n', '\n<!-- c -->', '\n<!DOCTYPE root>\n',
                     '<?xml-stylesheet href="x"?>'])))
    files = True
    if src.flag(.2):
        name = src.choice(NAMES)
        ctx.label('file names like ' + name)
        files = [name % i for i in range(len(docs))]
    c = Case(docs, g, html, files=files)
    c.show(ctx)
    ctx.label('html' if html else 'xml')
    if fits(c) is None:
        ctx.label('discarded: too large')
        return
    po, prt = c.real()
    ao, art = c.real(sourceAnnotations=1)
    if ao.error != po.error:
        raise Violation('plain: %r, annotated: %r' % (po, ao))
    if art.trace != prt.trace or art.translations != prt.translations:
        raise Violation('evaluations or translations differ: %r / %r' % (
            prt.translations, art.translations))
    if ao.error:
        ctx.label('failed')
        return
    if NOTE.search(po.text):
        raise Violation('annotation without being asked: %r' % po.text)
    ctx.show(annotated=ao.text)
    bare = NOTE.sub('', ao.text)
    if bare != po.text:
        raise Violation('without the comments: ' + diff_text(po.text, bare))
    if po.text.startswith('<?xml') and not ao.text.startswith('<?xml'):
        raise Violation('the XML declaration is no longer first')
    notes = [(m.start(), m.group(1), m.group(2) and int(m.group(2)))
             for m in NOTE.finditer(ao.text)]
    if src.flag(.1):
        got = brief(c, {'wrap': 0, 'strictinsert': c.strict,
                        'sourceAnnotations': 1})
        want = NOTE.sub(lambda m: '@@%s@@' % m.group(1), ao.text)
        if want != got:
            raise Violation('other format: ' + diff_text(want, got))
    c.files = [written(f) for f in c.files]
    for at, f, line in notes:
        if f not in c.files:
            raise Violation('annotation names %r' % f)
    if not i18n and not scripts:
        judge(c, ao.text, notes, ctx)
    ctx.label('comments: %s' % min(len(notes), 5))
    if len(notes) > 1:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data]),
                       {'sources': c.sources, 'output': ao.text})


def judge(c, text, notes, ctx):
    where = {}
    # what is announced at the end of a loop may be the next round
    loops = any(e.has('tal', 'repeat') for d in c.docs for e in walk_el(d))
    for i, d in enumerate(c.docs):
        lines = {m.group(): c.sources[i].count('\n', 0, m.start()) + 1
                 for m in MARK.finditer(c.sources[i])}

        def walk(nodes, start):
            for n in nodes:
                if type(n) is Raw:
                    for m in MARK.finditer(n.text):
                        where[m.group()] = (i, start, lines[m.group()])
                else:
                    walk(n.kids, n.pos[0] if n.has('metal', 'define-macro')
                         or n.has('metal', 'fill-slot') else start)
        walk(d, 1)
    events = sorted([(m.start(), m.group()) for m in MARK.finditer(text)]
                    + [(at, (f, line)) for at, f, line in notes],
                    key=lambda e: e[0])
    current = None
    fresh = None
    for at, e in events:
        if type(e) is tuple:
            fresh = e
            since = at + len(NOTE.match(text, at).group())
            current = e[0]
            continue
        i, start, line = where[e]
        if c.files[i] != current:
            raise Violation('mark %s of %s follows an annotation of %s'
                            % (e, c.files[i], current))
        if fresh is not None:
            f, n = fresh
            if n is None and fresh == notes[0][1:]:
                pass            # the very start of the page
            elif n is None or n < start or n > line \
                    and not loops \
                    and not OPENING.sub('', text[since:at]):
                raise Violation('mark %s (line %d, region from %d) follows '
                                'annotation %r' % (e, line, start, fresh))
            ctx.label('located')
            fresh = None
