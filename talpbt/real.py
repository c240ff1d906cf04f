"""Driving the code under test through its public API."""
import os
import sys
from io import StringIO

from .core import HarnessError
from .core import REPO_SRC
from .core import Violation

import zope.tal  # noqa: E402

if not os.path.abspath(zope.tal.__file__).startswith(REPO_SRC + os.sep):
    raise HarnessError('zope.tal is imported from %s' % zope.tal.__file__)

from zope.tal.htmltalparser import HTMLParseError  # noqa: E402
from zope.tal.htmltalparser import HTMLTALParser  # noqa: E402
from zope.tal.taldefs import I18NError  # noqa: E402,F401
from zope.tal.taldefs import METALError  # noqa: E402,F401
from zope.tal.taldefs import TALError  # noqa: E402
from zope.tal.talgenerator import TALGenerator  # noqa: E402
from zope.tal.talinterpreter import TALInterpreter  # noqa: E402
from zope.tal.talparser import TALParser  # noqa: E402
from xml.parsers.expat import ExpatError  # noqa: E402

from .engine import Compiler  # noqa: E402
from .engine import Engine  # noqa: E402


PARSE_ERRORS = (TALError, HTMLParseError, ExpatError)


def message(e):
    """The text of an error."""
    try:
        return str(e)
    except Exception as x:
        raise Violation('a %s cannot be shown: %s' % (type(e).__name__, x))


def compile_template(src, html, file=None, compiler=None):
    """(program, macros)"""
    gen = TALGenerator(Compiler() if compiler is None else compiler,
                       xml=0 if html else 1,
                       source_file=file)
    p = HTMLTALParser(gen) if html else TALParser(gen)
    p.parseString(src)
    return p.getCode()


def render(program, macros, rt, engine=None, **kw):
    """Output text; rt.scopes is checked for balance."""
    out = StringIO()
    engine = Engine(rt) if engine is None else engine
    TALInterpreter(program, macros, engine, out, **kw)()
    return out.getvalue()


class Outcome:
    """Result of one rendering, comparable between model and reality."""
    __slots__ = ('text', 'error')

    def __init__(self, text, error):
        self.text = text
        self.error = error

    def __eq__(self, other):
        return (self.text, self.error) == (other.text, other.error)

    def __repr__(self):
        if self.error is not None:
            return 'raises %s: %s' % self.error
        return repr(self.text)


def attempt(fn, *args, **kw):
    """Outcome of fn(); exceptions are part of the outcome."""
    try:
        return Outcome(fn(*args, **kw), None)
    except (KeyboardInterrupt, MemoryError, HarnessError):
        raise
    except BaseException as e:
        from .engine import TooBig
        if isinstance(e, TooBig):
            raise
        return Outcome(None, (type(e).__name__, message(e)))


sys.setrecursionlimit(3000)
