"""Fisher-Z and d-separation tests: reference values, symmetry, memo transparency along query histories."""
import hashlib

import numpy as np
from scipy.stats import norm

from vlib import graphs as G
from vlib.core import monitor

QUICK = 4      # times the quick cases of each monitor
RULE = ('One case = one data set (or DAG) and one history of 15-40 test/itest/function calls in random order, with '
        'repeats, swapped arguments and permuted conditioning sets; every answer is compared with a reference computed '
        'from the raw data and with a fresh test object. Distinct = data seed and history; non-trivial = a history with at '
        'least one repeated query and one conditional query.')
ASSUMPTIONS = ['continuous data with more records than variables + 4, no exact collinearity among conditioning variables']


def gen(rng, n, d):
    A = np.triu(rng.normal(size=(d, d)) * (rng.random((d, d)) < .5), 1)
    X = rng.normal(size=(n, d)) if rng.random() < .5 else rng.laplace(size=(n, d))
    for j in range(d):
        X[:, j] += X @ A[:, j]
    return X * np.exp(rng.normal(size=d) * 1.5) + rng.normal(size=d) * 3


def reference(X, x, y, z):
    """Partial correlation by regressing x and y on z, then Fisher's transform."""
    n = X.shape[0]
    B = np.column_stack([np.ones(n)] + [X[:, k] / X[:, k].std() for k in z])
    rx = X[:, x] - B @ np.linalg.lstsq(B, X[:, x], rcond=None)[0]
    ry = X[:, y] - B @ np.linalg.lstsq(B, X[:, y], rcond=None)[0]
    r = float(np.sum(rx * ry) / np.sqrt(np.sum(rx ** 2) * np.sum(ry ** 2)))
    a = min(.9999999, abs(r))
    return 2 * norm.sf(np.sqrt(n - len(z) - 3) * np.arctanh(a)), r


def same(ctx, got, want, mech, tag):
    ctx.event('answers')
    p, s = got
    ok = abs(p - want[0]) <= 1e-9 + 1e-4 * want[0] and abs(s - want[1]) <= 1e-6
    return ctx.check(ok and 0 <= p <= 1, mech, lambda: f'{tag}: answered (p, stat) = {(p, s)!r}, reference {want!r}')


@monitor(quick=400, thorough=12000, need={'answers': 5000, 'conditional': 1000, 'repeated': 200})
def fisherz_history(ctx):
    """FisherZ object: every answer of a query history equals the partial-correlation reference"""
    import pandas as pd
    from cdmir.utils.independence import FisherZ
    rng = ctx.rng
    d = int(rng.integers(2, 8))
    wide = ctx.index % 8 == 3
    d = int(rng.integers(13, 25)) if wide else d
    n = int(rng.choice([d + 6, 30, 100, 400]))
    n = max(n, d + 5)
    X = gen(rng, n, d)
    keep = X.copy()
    names = G.labels(rng, d, ['int', 'str', 'shuffled', 'offset', 'tuple'][int(rng.integers(5))])
    form = int(rng.integers(4))
    if form == 0:
        t, names = FisherZ(X), list(range(d))
    elif form == 1:
        t = FisherZ(X, var_names=names)
    elif form == 2:
        t = FisherZ(pd.DataFrame(X, columns=pd.Index(names, tupleize_cols=False)))
    else:
        t = FisherZ(pd.DataFrame(X), var_names=names)
    hist, seen = [], set()
    for _ in range(int(rng.integers(15, 40))):
        if hist and rng.random() < .35:
            x, y, z = hist[int(rng.integers(len(hist)))]
            if rng.random() < .5:
                x, y = y, x
            z = [z[int(i)] for i in rng.permutation(len(z))]
        else:
            x, y = (int(i) for i in rng.choice(d, 2, replace=False))
            rest = [k for k in range(d) if k not in (x, y)]
            z = [rest[int(i)] for i in rng.choice(len(rest), int(rng.integers(0, min(4, len(rest)) + 1)), replace=False)]
            if wide and hist and len(rest) > 10 and rng.random() < .3:
                # long sets that share most of their members
                x, y = hist[-1][0], hist[-1][1]
                pool = [k for k in range(d) if k not in (x, y)]
                pool.sort(key=str if rng.random() < .5 else None)
                z = pool[:9] + [k for k in pool[9:] if rng.random() < .4]
                z = z[:n - 5]
                z = [z[int(i)] for i in rng.permutation(len(z))]
            elif wide and hist and rng.random() < .6:
                # the same pair again, with a set whose numbers read alike
                x, y = hist[-1][0], hist[-1][1]
                z = [[1, 2], [12], [1, 12], [11, 2], [1, 1 + 1, 11], [1, 11], [11, 1, 2], [2, 11]][int(rng.integers(8))]
                z = [k for k in dict.fromkeys(z) if k not in (x, y)]
        key = (frozenset((x, y)), frozenset(z))
        ctx.event('repeated', int(key in seen))
        ctx.event('conditional', int(bool(z)))
        seen.add(key)
        hist.append((x, y, z))
        want = reference(X, x, y, z)
        k = int(rng.integers(4))
        if k == 0:
            zz = (list, tuple, set, iter)[int(rng.integers(4))]([names[i] for i in z])
            got = t.test(names[x], names[y], zz)
        elif k == 1 and not z:
            got = t.test(names[x], names[y])
        elif k == 2:
            got = t.itest(x, y, list(z))
        else:
            got = t.test(names[x], names[y], [names[i] for i in z])
        if not same(ctx, got, want, 'fisherz/value', f'n={n} form={form} query {(x, y, z)} call {k} of history {hist}'):
            break
        fresh = FisherZ(X).itest(x, y, list(z))
        ctx.close(got, fresh, 'fisherz/history-dependent', f'history {hist}', rtol=1e-6, atol=1e-9)
    ctx.check((X == keep).all(), 'fisherz/data-changed', '')
    if len(seen) < len(hist):
        ctx.case(ctx.case_seed, n, d, hist)


@monitor(quick=300, thorough=8000, need={'answers': 900})
def functional(ctx):
    """fisherz and fisherz_from_corr; affine and sign invariance"""
    from cdmir.utils.independence.functional import fisherz, fisherz_from_corr
    rng = ctx.rng
    d = int(rng.integers(2, 7))
    n = int(rng.integers(d + 5, 300))
    X = gen(rng, n, d)
    x, y = (int(i) for i in rng.choice(d, 2, replace=False))
    rest = [k for k in range(d) if k not in (x, y)]
    z = [rest[int(i)] for i in rng.permutation(len(rest))[:int(rng.integers(0, len(rest) + 1))]]
    want = reference(X, x, y, z)
    ctx.case(ctx.case_seed, n, d, x, y, z)
    corr = np.corrcoef(X, rowvar=False)
    keep = corr.copy()
    zf = (list, tuple, lambda v: iter(v))[int(rng.integers(3))](z)
    same(ctx, fisherz_from_corr(corr, n, x, y, zf if z or rng.random() < .5 else None), want, 'from_corr/value',
         f'n={n} {(x, y, z)}')
    ctx.check((corr == keep).all(), 'from_corr/argument-changed', '')
    if z:
        Z = X[:, z] if len(z) > 1 or rng.random() < .5 else X[:, z[0]]
        xx = X[:, x] if rng.random() < .5 else X[:, [x]]
        yy = X[:, y] if rng.random() < .5 else X[:, [y]]
        same(ctx, fisherz(xx, yy, Z), want, 'fisherz-fn/value', f'n={n} {(x, y, z)}')
    else:
        same(ctx, fisherz(X[:, x], X[:, y]), want, 'fisherz-fn/value', f'n={n} {(x, y)}')
    s = np.where(rng.random(d) < .5, -1., 1.)
    Y = X * s * np.exp(rng.normal(size=d)) + rng.normal(size=d)
    got = fisherz_from_corr(np.corrcoef(Y, rowvar=False), n, x, y, list(z))
    same(ctx, got, (want[0], want[1] * s[x] * s[y]), 'affine-invariance', f'n={n} {(x, y, z)}')


@monitor(quick=200, thorough=5000, need={'answers': 800, 'strong': 200})
def strong(ctx):
    """nearly collinear pairs and few records: p-values compared relatively, not only in absolute terms"""
    from cdmir.utils.independence import FisherZ
    from cdmir.utils.independence.functional import fisherz, fisherz_from_corr
    rng = ctx.rng
    k = int(rng.integers(0, 4))
    dof = int(rng.choice([1, 1, 2, 3, 6, 20]))
    n = dof + k + 3
    d = k + 2
    Z = rng.normal(size=(n, k))
    # a pair whose partial correlation given Z is set exactly
    B = np.column_stack([np.ones(n), Z])
    Q = np.linalg.qr(np.column_stack([B, rng.normal(size=(n, 2))]))[0]
    u, v = Q[:, -2], Q[:, -1]
    delta = float(10 ** rng.uniform(-6.5, -.5))
    r = (1 - delta) * (1 if rng.random() < .5 else -1)
    x = 3 * u + (Z @ rng.normal(size=k) if k else 0) + 1
    y = 2 * (r * u + np.sqrt(1 - r * r) * v) + (Z @ rng.normal(size=k) if k else 0) - 2
    X = np.column_stack([x, y, Z])
    p = [int(i) for i in rng.permutation(d)]
    X = X[:, p]
    i, j = p.index(0), p.index(1)
    z = [p.index(2 + c) for c in range(k)]
    want = 2 * norm.sf(np.sqrt(dof) * np.arctanh(1 - delta))
    ctx.event('strong', int(delta < 1e-3))
    tol = 1e-3 * want + 1e-13
    for name, f in (('object', lambda: FisherZ(X).itest(i, j, list(z)) if z else FisherZ(X).itest(i, j)),
                    ('fisherz', lambda: fisherz(X[:, i], X[:, j], X[:, z]) if z else fisherz(X[:, i], X[:, j])),
                    ('from_corr', lambda: fisherz_from_corr(np.corrcoef(X, rowvar=False), n, i, j, list(z)))):
        got = f()
        ctx.event('answers')
        ctx.check(abs(got[0] - want) <= tol and abs(got[1] - r) <= 1e-7, f'strong/{name}',
                  lambda: f'n={n} |z|={k} partial correlation {r!r}: answered {got!r}, p must be {want!r}')
    ctx.case(ctx.case_seed, n, k, delta)


@monitor(quick=200, thorough=5000, need={'answers': 3000})
def dsep_history(ctx):
    """Dsep oracle object answers 1.0 / 0.0 exactly by d-separation, in any query order"""
    from cdmir.utils.independence import Dsep
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    names = G.labels(rng, n)
    e = [(names[a], names[b]) for a, b in G.random_dag(rng, n)]
    idx = {v: i for i, v in enumerate(names)}
    perm = [names[int(i)] for i in rng.permutation(n)]      # column order unrelated to the node order
    t = Dsep(np.zeros((2, n)), var_names=perm, true_graph=G.build_dag(names, [(idx[a], idx[b]) for a, b in e]))
    hist = []
    for _ in range(20):
        x, y = (names[int(i)] for i in rng.choice(n, 2, replace=False))
        rest = [v for v in names if v not in (x, y)]
        z = [rest[int(i)] for i in rng.choice(len(rest), int(rng.integers(0, len(rest) + 1)), replace=False)]
        if hist and rng.random() < .3:
            y, x, z = hist[int(rng.integers(len(hist)))]
        hist.append((x, y, z))
        want = G.d_separated(names, e, x, y, z)
        got = t.test(x, y, z) if z or rng.random() < .5 else t.test(x, y)
        ctx.event('answers')
        ctx.check(tuple(got) == ((1., 1.) if want else (0., 0.)), 'dsep/answer',
                  lambda: f'{G.show(names, e)}: {x!r},{y!r}|{z!r} answered {got!r}, separated={want}')
    ctx.case(e, hist)


@monitor(quick=200, thorough=4000, need={'computed': 500})
def memo(ctx):
    """the caching base class: a user-defined symmetric test is computed at most once per query and always answers
    what it computed, including falsy statistics"""
    from cdmir.utils.independence import ConditionalIndependentTest
    rng = ctx.rng
    d = int(rng.integers(2, 14))
    calls = {}

    class T(ConditionalIndependentTest):
        def cal_stats(self, x, y, z=None):
            k = (frozenset((x, y)), None if z is None else frozenset(z))
            calls[k] = calls.get(k, 0) + 1
            return val(k)

    def val(k):
        h = hashlib.md5(repr((sorted(k[0]), None if k[1] is None else sorted(k[1]))).encode()).digest()
        return (h[0] / 256. if h[1] % 3 else 0.0, 0.0 if h[2] % 2 else 1.0)

    t = T(np.zeros((2, d)))
    hist = []
    pool = None
    if ctx.index % 2:
        # variable numbers whose digits run together: 1,2 / 12 / 1,12 / 11,2 / 112 ...
        d = 125
        pool = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 111, 112, 121, 122, 123][:int(rng.integers(7, 16))]
        t = T(np.zeros((2, d)))
        few = [(0, 4), (1, 23), (11, 3), (12, 3), (1, 12), (11, 2)][:int(rng.integers(1, 7))]
    for _ in range(60):
        if pool:
            x, y = few[int(rng.integers(len(few)))]
            if rng.random() < .3:
                x, y = y, x
            rest = [k for k in pool if k not in (x, y)]
            z = [rest[int(i)] for i in rng.choice(len(rest), int(rng.integers(1, 4)), replace=False)]
            ctx.event('confusable')
            hist.append((x, y, z))
            got = t.test(x, y, z)
            want = val((frozenset((x, y)), frozenset(z)))
            ctx.check(tuple(got) == want, 'memo/wrong-answer', lambda: f'{hist[-1]} answered {got!r}, own value {want!r}')
            continue
        x, y = (int(i) for i in rng.choice(d, 2, replace=False))
        rest = [k for k in range(d) if k not in (x, y)]
        z = [rest[int(i)] for i in rng.choice(len(rest), int(rng.integers(0, min(3, len(rest)) + 1)), replace=False)]
        z = None if not z and rng.random() < .5 else z
        hist.append((x, y, z))
        got = t.test(x, y, z)
        want = val((frozenset((x, y)), None if z is None else frozenset(z)))
        ctx.check(tuple(got) == want, 'memo/wrong-answer', lambda: f'{hist[-1]} answered {got!r}, its own value is {want!r}')
    for _ in range(12):                     # long sets with a common beginning or end
        d2 = t.data.shape[1] if hasattr(t, 'data') else d
        if d2 < 30:
            break
        base = sorted((int(i) for i in rng.choice(d2, 16, replace=False)), key=[str, int][int(rng.integers(2))])
        x, y, z = base[0], base[1], base[2:]
        for zz in (z, z[:-1], z[1:], z[:9] + z[10:], z[:-2] + z[-1:]):
            got = t.test(x, y, [zz[int(i)] for i in rng.permutation(len(zz))])
            want = val((frozenset((x, y)), frozenset(zz)))
            ctx.event('long_sets')
            ctx.check(tuple(got) == want, 'memo/wrong-answer', lambda: f'{(x, y, zz)} answered {got!r}, own value {want!r}')
    ctx.event('computed', len(calls))
    ctx.check(max(calls.values()) == 1, 'memo/recomputed', lambda: f'{[k for k, v in calls.items() if v > 1]}')
    ctx.case(d, hist)
