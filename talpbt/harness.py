"""A generated case and the comparison of reality with the reference model."""
from .core import Violation
from .engine import Boom
from .engine import Runtime
from .engine import TooBig
from .model import Model
from .model import Prep
from .real import attempt
from .real import compile_template
from .real import render
from .tmpl import DEFAULT_PREFIXES
from .tmpl import serialise


class Case:
    """Documents (page last), data and rendering options."""

    runtime_class = Runtime

    def __init__(self, docs, gen, html, files=False, prefixes=None, strict=1,
                 interpolate=1):
        self.docs = docs
        self.data = gen.data
        self.html = html
        self.strict = strict
        self.interpolate = interpolate
        self.files = files if type(files) is list else [
            'f%d.pt' % i if files else None for i in range(len(docs))]
        self.prefixes = prefixes or DEFAULT_PREFIXES
        self.sources = [serialise(d, f, prefixes)
                        for d, f in zip(docs, self.files)]
        self.mmacros = {}
        self.preps = [Prep(d, html, self.mmacros, prefixes) for d in docs]
        self.programs = None
        self.markup = True
        self.variables = {'a': 'A0', 'x': 'X0'}

    def show(self, ctx):
        ctx.show(mode='html' if self.html else 'xml', sources=self.sources,
                 data=[repr(v) for v in self.data], strict=self.strict)

    def runtime(self, macros, fault_at=None, fault_class=Boom):
        rt = self.runtime_class(self.data, self.variables, fault_at,
                                fault_class, macros)
        rt.markup = self.markup
        return rt

    def model(self, fault_at=None, fault_class=Boom, doc=-1, **kw):
        """(outcome, runtime) according to the reference model."""
        rt = self.runtime(self.mmacros, fault_at, fault_class)
        rt.limit = 1500
        m = Model(rt, self.html, self.strict, interpolate=self.interpolate,
                  prefixes=self.prefixes, **kw)
        return attempt(m.run, self.preps[doc], self.files[doc]), rt

    def compile(self, compiler=None):
        self.programs = [compile_template(s, self.html, f, compiler)
                         for s, f in zip(self.sources, self.files)]
        self.rmacros = {}
        for p, m in self.programs:
            self.rmacros.update(m)
        return self.programs

    def real(self, fault_at=None, fault_class=Boom, doc=-1, **kw):
        """(outcome, runtime) according to the code under test."""
        if self.programs is None:
            self.compile()
        program, macros = self.programs[doc]
        rt = self.runtime(self.rmacros, fault_at, fault_class)
        kw.setdefault('strictinsert', self.strict)
        kw.setdefault('wrap', 0)
        kw.setdefault('i18nInterpolate', self.interpolate)
        return attempt(render, program, macros, rt, **kw), rt


def check_runtime(rt, ok):
    if rt.problems:
        raise Violation('engine protocol: ' + '; '.join(rt.problems))
    if ok and len(rt.scopes) != 1:
        raise Violation('%d scopes were left open' % (len(rt.scopes) - 1))


def diff_text(want, got):
    n = 0
    while n < min(len(want), len(got)) and want[n] == got[n]:
        n += 1
    return 'expected %r\n     got %r\n(first difference at %d: %r / %r)' % (
        want, got, n, want[n:n + 40], got[n:n + 40])


def compare(case, mo, mrt, ro, rrt, trace=True, translations=True,
            positions=False):
    if mo.error != ro.error:
        raise Violation('expected outcome %r, got %r' % (mo, ro))
    if mo.error is None and mo.text != ro.text:
        raise Violation('output: ' + diff_text(mo.text, ro.text))
    if trace and mrt.trace != rrt.trace:
        i = 0
        while i < min(len(mrt.trace), len(rrt.trace)) \
                and mrt.trace[i] == rrt.trace[i]:
            i += 1
        raise Violation('evaluations differ from step %d: expected %r, got %r'
                        % (i, mrt.trace[i:i + 4], rrt.trace[i:i + 4]))
    if translations and mrt.translations != rrt.translations:
        raise Violation('translations: expected %r, got %r'
                        % (mrt.translations, rrt.translations))
    if positions and mrt.where != rrt.where:
        for i, (a, b) in enumerate(zip(mrt.where, rrt.where)):
            if a != b:
                raise Violation(
                    'evaluation %d (%r) reported at %r, belongs to %r'
                    % (i, rrt.trace[i], b, a))
    check_runtime(rrt, ro.error is None)


def fits(case, **kw):
    """The model's result, or None when the case is too large."""
    try:
        return case.model(**kw)
    except (TooBig, RecursionError):
        return None
