"""Attribute wrapping changes only white space between attributes."""
import re

from . import common
from ..core import Violation
from ..harness import diff_text
from ..harness import fits
from ..tmpl import El
from ..tmpl import walk

ID = 'C21'
LEVEL = 'exploration'
CASES = {'quick': 100000, 'thorough': 1000000}
RULE = ('a case is a generated template (HTML or XML, optionally with '
        'macros, translation or error handlers) rendered without wrapping '
        'and with two drawn widths between 1 and 130.  Outputs may differ '
        'only by line break and indentation for one space between two '
        'attributes of a start tag; outside messages and code each break '
        'must be necessary at its true column, and no second or later '
        'attribute of a line of an element with directives may pass the '
        'width.  Non-trivial: at least one break; distinct by sources, '
        'values and widths')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'columns are counted in characters; the place of breaks is not judged '
    'where attribute values have line breaks',
    'the place of breaks is not judged inside messages and inline code, nor '
    'in templates with macros and one of these']
PROBES = {}

# attributes as rendered
ATTR = re.compile(r'[^\s"\'<>/=]+(?:="[^"]*")?')
START = re.compile(r'<[^\W\d][^\s<>/]*(?:\s+[^\s"\'<>/=]+(?:="[^"]*")?)*$')


def compare(flat, wrapped, width, judge):
    """Number of breaks; Violation when something else differs."""
    i = j = breaks = 0
    line = 0            # start of the current line in wrapped
    n = len(flat)
    while i < n:
        c = flat[i]
        if j < len(wrapped) and wrapped[j] == c:
            if c == '\n':
                line = j + 1
            i += 1
            j += 1
            continue
        m = re.compile(r'\n +').match(wrapped, j)
        if c != ' ' or m is None:
            raise Violation('width %d: %s' % (width, diff_text(
                flat, wrapped)))
        # between two parts of a start tag?
        a = ATTR.match(flat, i + 1)
        if a is None or not START.search(
                flat[max(0, flat.rfind('<', 0, i)):i]):
            raise Violation('width %d: broken outside a start tag at %r'
                            % (width, flat[max(0, i - 30):i + 30]))
        tag = flat[max(0, flat.rfind('<', 0, i)):i]
        if (judge and ' data-w="2"' not in tag
                and (j - line) + 1 + len(a.group()) <= width):
            raise Violation(
                'width %d: %r would have ended in column %d but is on a new '
                'line: %r' % (width, a.group(), j - line + 1 + len(a.group()),
                              wrapped[line:m.end() + 20]))
        breaks += 1
        i += 1
        j = m.end()
        line = m.start() + 1
    if j != len(wrapped):
        raise Violation('width %d: %s' % (width, diff_text(flat, wrapped)))
    return breaks


def check_width(wrapped, width):
    """No later attribute of a line passes the width, in tags marked so."""
    for m in re.finditer(r'<[^\W\d][^\s<>/"]*((?:\s+' + ATTR.pattern
                         + r')+)\s*/?>', wrapped):
        if ' data-w="1"' not in m.group(1).replace('\n', ' '):
            continue
        parts = re.findall(r'(\s+)(' + ATTR.pattern + ')', m.group(1))
        col = m.start(1) - (wrapped.rfind('\n', 0, m.start(1)) + 1)
        for k, (ws, a) in enumerate(parts):
            if '\n' in ws:
                col = len(ws) - ws.rfind('\n') - 1 + len(a)
            else:
                col += len(ws) + len(a)
                if k and col > width:
                    raise Violation('width %d: %r ends in column %d of %r'
                                    % (width, a, col, m.group()))


class Mark:
    """Marks elements with directives: 1, or 2 when their output is captured
    as a message or as code."""

    def __init__(self, tabs):
        self.captured = set()
        self.tabs = tabs

    def __call__(self, el):
        captured = id(el) in self.captured
        if self.tabs:
            el.items = [(ns, k, v and v.replace(' ', '\t')) if ns is None
                        else (ns, k, v) for ns, k, v in el.items]
        if el.directive and not el.nstag:
            el.items.insert(0, (None, 'data-w', '2' if captured else '1'))
        if captured or el.has('i18n', 'translate') or el.has('tal', 'script'):
            self.captured.update(id(k) for k in el.kids if isinstance(k, El))


def text_values(docs):
    """Numbers of the values that are used as text only."""
    uses = {}
    for d in docs:
        for e in walk(d):
            for ns, k, v in e.items:
                for n in re.findall(r'data:(\d+)', v or ''):
                    uses.setdefault(int(n), set()).add((ns, k, v))
    return sorted(n for n, u in uses.items() if len(u) == 1 and all(
        (ns, k, v) in (('tal', x, p + 'data:%d' % n)
                       for x in ('content', 'replace') for p in ('', 'text '))
        for ns, k, v in u))


def case(src, ctx):
    i18n = src.flag(.3)
    lib = src.flag(.3)
    off = src.choice([{}, {}, {}, {'tal': 0}, {'tal': 0, 'metal': 0},
                      {'tal': 0, 'metal': 0, 'showtal': 0}])
    scripts = src.flag(.2)
    lines = src.flag(.3)
    failing = i18n and src.flag(.4)
    # line breaks in attribute values: what is lost is judged, not where
    # breaks are made
    multiline = src.flag(.1)
    c = common.make(src, library=lib, metal=lib, i18n=i18n,
                    multiline=multiline,
                    pre=not lib, p_pre=.35 if failing else .1, scripts=scripts,
                    onerror=failing or src.flag(.2),
                    errors=failing or src.flag(.1), maxel=12,
                    structure=src.flag(.3), edit=Mark(src.flag(.1)), ws=not off)
    if lines:
        # in text, not in attributes
        for i in text_values(c.docs):
            if type(c.data[i]) is str:
                c.data[i] = c.data[i].replace(' ', '\n') + '\n<' * (i % 2)
    # which elements a macro puts into a message or code is not tracked
    judged = (not lib or not (i18n or scripts) or off) and not multiline
    widths = [src.choice([60, 20, 40, 79, 10, 100, 1, 5, 30, 50, 130]),
              src.int(1, 130)]
    c.show(ctx)
    ctx.show(widths=widths, options=off)
    ctx.label('html' if c.html else 'xml')
    m = fits(c)
    if m is None:
        ctx.label('discarded: too large')
        return
    if not off and m[1].ticks and src.flag(.3) and any(
            e.has('tal', 'on-error') for d in c.docs for e in walk(d)):
        # one of the evaluations fails
        off = {'fault_at': src.draw(m[1].ticks)}
        ctx.show(options=off)
        ctx.label('with a fault')
        if fits(c, **off) is None:
            ctx.label('discarded: too large')
            return
    flat, frt = c.real(**off)
    if flat.error:
        ctx.label('failed')
    breaks = 0
    for w in widths:
        out, rt = c.real(wrap=w, **off)
        if out.error != flat.error:
            raise Violation('width %d: %r, unwrapped: %r' % (w, out, flat))
        if rt.trace != frt.trace:
            raise Violation('width %d changes the evaluations' % w)
        if out.error is None:
            breaks += compare(flat.text, out.text, w, judged)
            if judged:
                check_width(out.text, w)
        ctx.evals += 1
    ctx.label('breaks: %s' % min(breaks, 5))
    if breaks:
        ctx.nontrivial((c.sources, [repr(v) for v in c.data], widths),
                       {'sources': c.sources, 'widths': widths,
                        'output': out.text})
