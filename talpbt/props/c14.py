"""A compiled template is immutable and can be rendered any number of times."""
import copy
import threading

from . import common
from ..core import HarnessError
from ..core import Violation
from ..engine import Engine
from ..engine import Runtime
from ..harness import Case
from ..harness import diff_text
from ..harness import fits
from ..real import attempt
from ..real import compile_template
from ..real import render

ID = 'C14'
LEVEL = 'exploration'
CASES = {'quick': 24000, 'thorough': 400000}
RULE = ('a case is a macro library and page, two sets of values, and a '
        'history of two to seven renderings of the shared compiled programs: '
        'complete, with a fault injected at any evaluation, with other '
        'options, nested inside an expression evaluation of another '
        'rendering, or interleaved at every evaluation step under a drawn '
        'schedule.  Every rendering must give the output, evaluations and '
        'error of the same rendering of freshly compiled templates, and the '
        'programs must stay equal to their snapshot and to a new '
        'compilation.  Non-trivial: at least two renderings share a program '
        'with directives; distinct by sources and history')
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    'interleavings switch at engine calls, not inside the processor']
PROBES = {}

OPTIONS = [{}, {}, {'strictinsert': 0}, {'tal': 0}, {'tal': 0, 'metal': 0},
           {'metal': 0}, {'showtal': 1}, {'sourceAnnotations': 1},
           {'wrap': 30}, {'i18nInterpolate': 0}, {'stackLimit': 2}]


class Run:
    """One rendering of the history."""

    def __init__(self, doc, data, kw, fault=None):
        self.doc = doc
        self.data = data
        self.kw = kw
        self.fault = fault
        self.nested = None      # (tick, Run)

    def __repr__(self):
        s = 'render(doc %d, values %d, %r' % (self.doc, self.data, self.kw)
        if self.fault is not None:
            s += ', fault at %d' % self.fault
        if self.nested:
            s += ', at %d: %r' % self.nested
        return s + ')'


class HookRuntime(Runtime):
    hook = None

    def tick(self, kind, expr):
        if self.hook is not None:
            self.hook(self.ticks)
        Runtime.tick(self, kind, expr)


class Session:
    def __init__(self, case, values):
        self.case = case
        self.values = values

    def compiled(self):
        c = self.case
        progs = [compile_template(s, c.html, f)
                 for s, f in zip(c.sources, c.files)]
        macros = {}
        for p, m in progs:
            macros.update(m)
        return progs, macros

    def start(self, run, shared, hook=None):
        progs, macros = shared
        rt = HookRuntime(self.values[run.data], self.case.variables,
                         run.fault, macros=macros)
        rt.hook = hook
        return rt

    def go(self, run, shared, hook=None, nest=True):
        """(outcome, trace, translations) of a rendering."""
        rt = self.start(run, shared, hook)
        inner = []
        if run.nested and nest:
            at, sub = run.nested
            old = rt.hook

            def h(n):
                if n == at and not inner:
                    inner.append(None)
                    inner[0] = self.go(sub, shared)
                if old:
                    old(n)
            rt.hook = h
        program, macros = shared[0][run.doc]
        kw = {'wrap': 0}
        kw.update(run.kw)
        o = attempt(render, program, macros, rt, Engine(rt), **kw)
        return (o.text, o.error, rt.trace, rt.translations, rt.where), inner


class Schedule:
    """Runs several renderings in threads, exactly one at a time, switching
    at engine calls as the choices say."""

    def __init__(self, src, n):
        self.src = src
        self.turn = 0
        self.alive = list(range(n))
        self.cond = threading.Condition()
        self.switches = 0
        self.budget = 60

    def wait(self, i):
        with self.cond:
            while self.turn != i:
                if not self.cond.wait(30):
                    raise HarnessError('schedule stuck')

    def pick(self):
        if self.budget > 0 and len(self.alive) > 1:
            self.budget -= 1
            return self.alive[self.src.draw(len(self.alive))]
        return self.alive[0]

    def step(self, i):
        with self.cond:
            self.turn = self.pick() if self.budget > 0 else i
            if self.turn != i:
                self.switches += 1
                self.cond.notify_all()
        self.wait(i)

    def done(self, i):
        with self.cond:
            self.alive.remove(i)
            if self.alive:
                self.turn = self.alive[0]
            self.cond.notify_all()


def interleave(src, session, runs, shared):
    sched = Schedule(src, len(runs))
    results = [None] * len(runs)

    def work(i):
        try:
            sched.wait(i)
            results[i] = session.go(runs[i], shared,
                                    lambda n: sched.step(i), nest=False)
        except BaseException as e:
            results[i] = e
        finally:
            sched.done(i)

    threads = [threading.Thread(target=work, args=(i,))
               for i in range(len(runs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for r in results:
        if isinstance(r, BaseException):
            raise r
    return results, sched.switches


def case(src, ctx):
    from ..gen import Gen
    from ..gen import Opt
    html = not src.flag(.4)
    i18n = src.flag(.4)
    o = Opt(html=html, names=True, metal=True, extend=src.flag(.4), i18n=i18n,
            onerror=src.flag(.5), errors=src.flag(.2), messages=i18n,
            maxel=src.choice([6, 12]), fragdirs=src.flag(.3),
            inline=src.flag(.2), scripts=src.flag(.2))
    g = Gen(src, o)
    docs = g.library()
    c = Case(docs, g, html, files=src.flag(.4))
    c.show(ctx)
    if fits(c) is None:
        ctx.label('discarded: too large')
        return
    # a second set of values, of the same kinds
    values = [c.data, [alt(src, v) for v in c.data]]
    s = Session(c, values)
    shared = s.compiled()
    snapshot = copy.deepcopy(shared)
    fresh = {}

    def reference(run):
        k = repr(run)
        if k not in fresh:
            fresh[k] = s.go(run, s.compiled(), nest=False)[0]
        return fresh[k]

    def draw_run(faults=True):
        run = Run(src.draw(len(docs)) if src.flag(.3) else len(docs) - 1,
                  src.draw(2), dict(src.choice(OPTIONS)))
        if faults and src.flag(.35):
            n = len(reference(run)[2])
            if n:
                run.fault = src.draw(n)
        return run

    history = []
    steps = src.int(1, 3)
    for _ in range(steps):
        k = src.draw(3)
        if k == 0:
            run = draw_run()
            history.append(run)
            got = [(run, s.go(run, shared))]
        elif k == 1:
            run = draw_run()
            n = len(reference(run)[2])
            inner = draw_run()
            sub = Run(run.doc, run.data, run.kw, run.fault)
            sub.nested = (src.draw(max(n, 1)), inner)
            history.append(sub)
            ctx.label('nested')
            r = s.go(sub, shared)
            got = [(run, r)]
            if r[1]:
                got.append((inner, r[1][0]))
        else:
            runs = [draw_run() for _ in range(src.int(2, 3))]
            for r in runs:
                reference(r)
            res, sw = interleave(src, s, runs, shared)
            history.append(runs)
            ctx.label('interleaved')
            if sw:
                ctx.label('interleaved with switches')
            got = list(zip(runs, res))
        ctx.show(history=[repr(h) for h in history])
        for run, (res, _) in got:
            if run.fault is not None:
                ctx.label('failed rendering')
            ref = reference(run)
            for what, a, b in zip(('output', 'error', 'evaluations',
                                   'translations', 'positions'), ref, res):
                if a != b:
                    if what == 'output' and a and b:
                        a = diff_text(a, b)
                        b = ''
                    raise Violation('%r after other renderings: %s %r %r'
                                    % (run, what, a, b))
        if shared != snapshot:
            raise Violation('rendering changed a compiled program: %r became '
                            '%r' % first_difference(snapshot, shared))
    new = s.compiled()
    if new != shared:
        raise Violation('compiling again gives another program: %r, %r'
                        % first_difference(shared, new))
    ctx.evals = max(1, sum(len(h) if isinstance(h, list) else 1
                           for h in history))
    if ctx.evals > 1:
        ctx.nontrivial((c.sources, repr(history)),
                       {'sources': c.sources, 'history': repr(history)})


def first_difference(a, b):
    if type(a) is type(b) and isinstance(a, (list, tuple)) \
            and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_difference(x, y)
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return first_difference(a[k], b[k])
    return a, b


def alt(src, v):
    """Another value of the same kind."""
    if not src.flag(.5):
        return v
    if isinstance(v, list):
        return v[1:] if len(v) > 1 else v + ['more']
    if type(v) is str:
        return v + '!'
    return v
