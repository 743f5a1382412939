"""Monitor registry, per-case context and verdict bookkeeping."""
import hashlib
import os
import random
import signal
import sys
import traceback
import warnings
from collections import Counter

import numpy as np

REPO = os.path.realpath(os.environ.get('CDMIR_SRC', '/repo'))
PKG = os.path.join(REPO, 'cdmir') + os.sep


class CaseTimeout(BaseException):
    """The CPU-time watchdog of one case fired."""


class Skip(Exception):
    """The generated case does not satisfy the property's precondition."""


class Monitor:
    def __init__(self, fn, quick, thorough, cpu, need, doc):
        self.fn, self.quick, self.thorough, self.cpu = fn, quick, thorough, cpu
        self.need = need or {}
        self.name = fn.__name__
        self.doc = (doc or fn.__doc__ or '').strip()


def monitor(quick, thorough, cpu=60, need=None, registry=None):
    """Register a monitored workload: `quick`/`thorough` cases, `cpu` seconds of CPU per case, and the
    event counts (`need`) below which the run is inconclusive."""

    def deco(fn):
        m = Monitor(fn, quick, thorough, cpu, need, fn.__doc__)
        sys.modules[fn.__module__].__dict__.setdefault('MONITORS', []).append(m)
        return fn

    return deco


class Ctx:
    def __init__(self, prop, mon, index, seed, tier):
        self.prop, self.mon, self.index, self.seed, self.tier = prop, mon, index, seed, tier
        h = hashlib.sha256(f'{prop}/{mon.name}/{seed}/{index}'.encode()).digest()
        self.case_seed = int.from_bytes(h[:4], 'little') & 0x7fffffff
        self.rng = np.random.default_rng(int.from_bytes(h[:8], 'little'))
        self.events = Counter()
        self.cases = []          # (digest, sample text)
        self.violations = []     # (mechanism, message)
        self.skipped = 0
        self.timeout = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def event(self, kind, n=1):
        self.events[kind] += int(n)

    def case(self, *key):
        """Record one distinct, non-trivial case (its identity is `key`)."""
        text = repr(key) if len(key) != 1 else repr(key[0])
        self.cases.append((hashlib.md5(text.encode()).hexdigest()[:16], text[:400]))

    def fail(self, mechanism, message=''):
        self.violations.append((mechanism, str(message)[:4000]))

    def check(self, cond, mechanism, message=''):
        self.event('assertions')
        if not cond:
            self.fail(mechanism, message() if callable(message) else message)
        return bool(cond)

    def close(self, got, want, mechanism, message='', rtol=1e-7, atol=1e-9):
        self.event('assertions')
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(mechanism, f'{message() if callable(message) else message}\n got={got!r}\nwant={want!r}')
        return ok

    def raises(self, fn, mechanism, message='', exc=Exception):
        """fn() must be refused."""
        self.event('assertions')
        self.event('rejections_expected')
        try:
            r = fn()
        except exc:
            return True
        self.fail(mechanism, f'{message}: accepted, returned {r!r}')
        return False


def _alarm(signum, frame):
    raise CaseTimeout()


def seed_all(s):
    random.seed(s)
    np.random.seed(s & 0x7fffffff)
    if 'torch' in sys.modules:
        sys.modules['torch'].manual_seed(s)


def in_repo(tb):
    """Does the traceback run through the code under test?"""
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(PKG)]


def run_case(prop, mon, index, seed, tier):
    ctx = Ctx(prop, mon, index, seed, tier)
    seed_all(ctx.case_seed)
    signal.signal(signal.SIGVTALRM, _alarm)
    error = None
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, mon.cpu)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mon.fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Skip:
        ctx.skipped = 1
    except CaseTimeout:
        tb = sys.exc_info()[2]
        fr = in_repo(tb)
        if fr:
            ctx.timeout = True
            ctx.fail(f'no-return/{os.path.basename(fr[0].filename)}:{fr[0].name}',
                     f'no answer after {mon.cpu} s of CPU time (such a call normally takes a small fraction of '
                     f'that)\n' + '\n'.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in fr[:6]))
        else:
            error = f'{mon.name}[{index}]: the watchdog fired outside the code under test\n' + traceback.format_exc()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        fr = in_repo(e.__traceback__)
        if fr:
            ctx.fail(f'exception/{type(e).__name__}@{os.path.basename(fr[-1].filename)}:{fr[-1].name}',
                     traceback.format_exc()[-3500:])
        else:
            error = f'{mon.name}[{index}]: harness error\n' + traceback.format_exc()
    return ctx, error
