"""Choice-sequence property-based testing core.

Every random decision of a case is one integer drawn from a Source.  A case is
therefore a pure function of (VERIF_SEED, property, case number), can be
replayed from the recorded integers alone, and is shrunk by deleting, zeroing
and lowering integers (smaller = simpler by the convention that choice 0 is
always the simplest alternative).
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
CPU_LIMIT_S = 60.0   # CPU seconds for ONE case; ordinary cases take milliseconds


class Violation(Exception):
    """The oracle of a property rejected what the code under test did."""


class HarnessError(Exception):
    """The machinery itself is wrong; never reported as a violation."""


class Source:
    """Recorded stream of bounded integer choices."""

    __slots__ = ('rnd', 'pre', 'rec', 'notes')

    def __init__(self, rnd=None, pre=()):
        self.rnd = rnd
        self.pre = pre
        self.rec = []

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.rec)
        if i < len(self.pre):
            v = self.pre[i]
            if v >= n:
                v %= n
        elif self.rnd is not None:
            v = int(self.rnd.random() * n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def flag(self, p=0.5):
        """True with probability p; choice 0 is False."""
        return self.draw(1000) >= 1000 * (1 - p)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def freq(self, pairs):
        """Weighted choice over ((weight, item), ...); first item simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        v = self.draw(total)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        raise HarnessError('freq')

    def count(self, lo, hi, p=0.6):
        """A length: lo plus a geometric number of extras, at most hi."""
        n = lo
        while n < hi and self.flag(p):
            n += 1
        return n

    def many(self, fn, lo, hi, p=0.6):
        out = []
        while len(out) < hi and (len(out) < lo or self.flag(p)):
            out.append(fn())
        return out

    def sample(self, seq, lo, hi, p=0.6):
        """Distinct items of seq, in drawn order."""
        pool = list(seq)
        out = []
        hi = min(hi, len(pool))
        while len(out) < hi and (len(out) < lo or self.flag(p)):
            out.append(pool.pop(self.draw(len(pool))))
        return out


class Ctx:
    """Per-case notebook: what was generated and how it classifies."""

    __slots__ = ('labels', 'key', 'sample', 'detail', 'evals')

    def __init__(self):
        self.labels = {}
        self.key = None
        self.sample = None
        self.detail = {}
        self.evals = 1

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, key, sample=None):
        self.key = key
        if sample is not None:
            self.sample = sample

    def show(self, **kw):
        """Readable form of the case; goes into the replay file."""
        self.detail.update(kw)


def case_seed(seed, prop, index):
    h = hashlib.blake2b(f'{seed}/{prop}/{index}'.encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def in_repo(tb):
    """Does the innermost non-stdlib frame chain of tb pass through /repo?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def run_case(prop, src):
    """Run one case.  Returns (ctx, None) or (ctx, violation message)."""
    ctx = Ctx()
    try:
        prop.case(src, ctx)
    except Violation as e:
        return ctx, str(e)
    except HarnessError:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        # An exception nobody expected.  If it was raised by (or through) the
        # code under test, the code misbehaved; otherwise the harness did.
        if in_repo(e.__traceback__):
            text = ''.join(traceback.format_exception(e)[-6:])
            return ctx, 'unexpected exception from zope.tal:\n' + text
        raise
    return ctx, None


def _arm(prop, index, src, report):
    def on_cpu(signum, frame):
        report({'index': index, 'choices': list(src.rec), 'hang': True,
                'message': 'case used more than %.0f s of CPU time '
                           '(typical: milliseconds); treated as '
                           'non-termination' % CPU_LIMIT_S,
                'detail': {}})
        os._exit(0)
    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)


def worker(prop, seed, indices, path):
    """Run the cases with the given indices, write a JSON summary to path."""
    st = {'evaluations': 0, 'labels': {}, 'keys': [], 'samples': [],
          'failure': None, 'error': None}
    keys = set()

    def dump(failure=None):
        if failure is not None:
            st['failure'] = failure
        st['keys'] = sorted(keys)
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(st, f)
        os.rename(tmp, path)

    rnd = random.Random()
    for index in indices:
        rnd.seed(case_seed(seed, prop.ID, index))
        src = Source(rnd)
        _arm(prop, index, src, dump)
        try:
            ctx, msg = run_case(prop, src)
        except BaseException as e:
            st['error'] = {'index': index, 'trace': traceback.format_exc()[-4000:]}
            dump()
            return
        st['evaluations'] += ctx.evals
        for k, v in ctx.labels.items():
            st['labels'][k] = st['labels'].get(k, 0) + v
        if ctx.key is not None:
            k = hashlib.blake2b(repr(ctx.key).encode('utf-8', 'backslashreplace'),
                                digest_size=6).hexdigest()
            keys.add(k)
            if ctx.sample is not None and len(st['samples']) < 3 and index % 7 == 3:
                st['samples'].append(jsonable(ctx.sample))
        if msg is not None:
            dump({'index': index, 'choices': list(src.rec), 'message': msg,
                  'detail': jsonable(ctx.detail)})
            return
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    dump()


def shrink(prop, choices, budget=4000):
    """Greedy choice-sequence minimisation; returns the smallest failing one."""
    used = 0
    seen = set()

    def fails(cand):
        nonlocal used
        key = tuple(cand)
        if key in seen or used >= budget:
            return None
        seen.add(key)
        used += 1
        src = Source(None, cand)
        try:
            ctx, msg = run_case(prop, src)
        except BaseException:
            return None
        if msg is None:
            return None
        return list(src.rec)

    best = fails(list(choices))
    if best is None:
        return list(choices), used

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and used < budget:
        improved = False
        # delete blocks, big to small
        size = 64
        while size >= 1:
            i = len(best) - size
            while i >= 0 and used < budget:
                got = fails(best[:i] + best[i + size:])
                if got is not None and better(got, best):
                    best = got
                    improved = True
                    i = min(i, len(best)) - size
                else:
                    i -= size if size > 4 else 1
            size //= 2
        # zero blocks
        size = 16
        while size >= 1:
            i = 0
            while i < len(best) and used < budget:
                blk = best[i:i + size]
                if any(blk):
                    got = fails(best[:i] + [0] * len(blk) + best[i + size:])
                    if got is not None and better(got, best):
                        best = got
                        improved = True
                i += size
            size //= 4
        # lower single values
        i = 0
        while i < len(best) and used < budget:
            v = best[i]
            for c in (1, v // 2, v - 1):
                if 0 < c < v:
                    got = fails(best[:i] + [c] + best[i + 1:])
                    if got is not None and better(got, best):
                        best = got
                        improved = True
                        break
            i += 1
    return best, used


def replay(prop, choices):
    src = Source(None, choices)
    ctx, msg = run_case(prop, src)
    return ctx, msg


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            return x.encode('utf-8', 'backslashreplace').decode('utf-8')
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return repr(x)
