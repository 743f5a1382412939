"""Additive noise model: kernels, HSIC and direction scores against independent references and invariances."""
import numpy as np
import pandas as pd

from vlib.core import monitor

RULE = ('One case = one random sample (continuous, tied, integer or constant columns) whose kernel matrices, HSIC or '
        'direction scores are recomputed by independent formulas and under renaming, reordering and rescaling. Distinct = '
        'the sample; non-trivial = at least 20 records and a non-constant variable.')
ASSUMPTIONS = ['the declared regression is the Gaussian process with fixed unit kernel and noise 1e-10 on standardised data; '
               'its rounding error is bounded by 2 % of the score']


def mod():
    import importlib
    return importlib.import_module('cdmir.discovery.funtional_based.anm.ANM')


def k_ref(a, deg):
    a = np.asarray(a, float).reshape(len(a), -1)
    D = ((a[:, None, :] - a[None]) ** 2).sum(-1)
    if deg == -1:
        u = D[np.triu_indices(len(a), 1)]
        deg = np.sqrt(.5 * np.median(u[u > 0]))
    return np.exp(-D / 2 / deg ** 2)


def hsic_ref(x, y, sx=-1, sy=-1):
    K, L = k_ref(x, sx), k_ref(y, sy)
    Kc = K - K.mean(0) - K.mean(1)[:, None] + K.mean()
    return float((Kc * L).sum() / len(K))


def std(a):
    a = np.asarray(a, float)
    return (a - a.mean()) / a.std()


def score_ref(x, y):
    x, y = std(x), std(y)
    K = np.exp(-.5 * (x[:, None] - x[None]) ** 2)
    w, V = np.linalg.eigh(K)
    w = np.maximum(w, 0)
    r = V @ ((w / (w + 1e-10)) * (V.T @ y)) - y
    return hsic_ref(std(r), std(x))


def sample(rng, n):
    k = int(rng.integers(5))
    return [rng.normal(size=n), rng.uniform(-5, 9, n), rng.exponential(size=n) * 1e-3, rng.integers(-4, 5, n).astype(float),
            1e3 + rng.laplace(size=n)][k]


@monitor(150, 3000, cpu=60, need=dict(kernels=100, statistics=100))
def kernels(ctx):
    """kernel matrices, median heuristic, HSIC with given and automatic widths, subsampling"""
    M, rng = mod(), ctx.rng
    n, p = int(rng.integers(20, 90)), int(rng.integers(1, 4))
    X = np.stack([sample(rng, n) for _ in range(p)], 1)
    Y = np.stack([sample(rng, n + 3) for _ in range(p)], 1)
    X0, Y0 = X.copy(), Y.copy()
    deg = float(rng.uniform(.3, 4) * max(X.std(), 1e-3))
    tol = dict(rtol=1e-6, atol=1e-6)
    # deviations of the expanded square are of the order eps * |x|^2 / deg^2
    tol['atol'] += 1e-12 * float((X ** 2).sum(1).max()) / deg ** 2
    ctx.case(ctx.case_seed, n, p)
    ctx.event('kernels')
    ctx.close(M.rbf_dot(X, deg), k_ref(X, deg), 'kernel/fixed-width', f'n={n} p={p} deg={deg}', **tol)
    D = ((X[:, None, :] - Y[None]) ** 2).sum(-1)
    tol2 = dict(rtol=1e-6, atol=1e-6 + 1e-12 * max((X ** 2).sum(1).max(), (Y ** 2).sum(1).max()) / deg ** 2)
    ctx.close(M.rbf_dot2(X, Y, deg), np.exp(-D / 2 / deg ** 2), 'kernel/two-samples', f'n={n} p={p} deg={deg}', **tol2)
    x, y = sample(rng, n), sample(rng, n)
    if p == 1:
        ctx.close(M.rbf_dot2(X[:, 0], Y[:, 0], deg), np.exp(-D / 2 / deg ** 2), 'kernel/two-samples', '1d', **tol2)
        ctx.close(M.rbf_dot(X[:, 0], deg), k_ref(X, deg), 'kernel/fixed-width', '1d', **tol)
    xs, ys = std(x), std(y)
    if len(np.unique(x)) > 12:
        ctx.close(M.rbf_dot(xs, -1), k_ref(xs, -1), 'kernel/median-width', f'n={n}', rtol=1e-6, atol=1e-6)
        ctx.close(M.rbf_dot(xs[:, None], -1), k_ref(xs, -1), 'kernel/median-width', f'n={n}', rtol=1e-6, atol=1e-6)
    sx, sy = float(rng.uniform(.3, 2)), float(rng.uniform(.3, 2))
    ctx.event('statistics')
    a = M.FastHsicTestGamma(xs, ys, [sx, sy])
    ctx.close(a, hsic_ref(xs, ys, sx, sy), 'hsic/value', f'n={n} widths {sx} {sy}', rtol=1e-6, atol=1e-8)
    ctx.close(M.FastHsicTestGamma(ys, xs, [sy, sx]), a, 'hsic/symmetric', '', rtol=1e-8, atol=1e-9)
    ctx.check(a > -1e-9, 'hsic/negative', str(a))
    perm = rng.permutation(n)
    ctx.close(M.FastHsicTestGamma(xs[perm], ys[perm], [sx, sy]), a, 'hsic/record-order', '', rtol=1e-8, atol=1e-9)
    c = M.FastHsicTestGamma(np.ones(n), ys, [sx, sy])
    ctx.close(c, 0, 'hsic/constant', f'{c}', atol=1e-9)
    if len(np.unique(x)) > 12 and len(np.unique(y)) > 12:
        h = M.normalized_hsic(x, y)
        ctx.close(h, hsic_ref(xs, ys), 'hsic/normalised', f'n={n}', rtol=1e-5, atol=1e-7)
        ctx.close(M.normalized_hsic(-3 * x + 2, y / 7), h, 'hsic/affine', f'n={n}', rtol=1e-5, atol=1e-7)
    # subsampling: maxpnt evenly spaced records, the same ones of both variables
    # (with n - 1 and maxpnt - 1 coprime only the two ends are whole positions, so rounding can move the last one only)
    mx = int(rng.choice([m for m in range(5, n) if np.gcd(m - 1, n - 1) == 1] or [n]))
    if mx < n:
        got = M.FastHsicTestGamma(xs, ys, [sx, sy], maxpnt=mx)
        i = np.floor(np.arange(mx) * ((n - 1) / (mx - 1)) + 1e-9).astype(int)
        i[-1] = n - 1
        j = i.copy()
        j[-1] = n - 2
        want = [hsic_ref(xs[k], ys[k], sx, sy) for k in (i, j)]
        ctx.event('subsamples')
        ctx.check(any(np.isclose(got, w, rtol=1e-6, atol=1e-8) for w in want), 'hsic/subsample',
                  lambda: f'n={n} maxpnt={mx}: {got} want {want}')
    ctx.close(M.FastHsicTestGamma(xs, ys, [sx, sy], maxpnt=n), a, 'hsic/no-subsample', '', rtol=1e-9, atol=1e-10)
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'kernel/argument-changed', '')


@monitor(48, 600, cpu=200, need=dict(pairs=30))
def scores(ctx):
    """both direction scores against an eigenvalue formula of the declared regression; swap, order, containers, affine maps"""
    M, rng = mod(), ctx.rng
    n = int(rng.choice([40, 80, 150, 300])) if ctx.index % 12 != 5 else int(rng.choice([500, 700, 1100]))
    x = [rng.uniform(-2, 2, n), rng.normal(size=n), rng.exponential(size=n)][int(rng.integers(3))]
    f = [lambda t: t + t ** 3, np.tanh, lambda t: np.sin(2 * t), lambda t: t, lambda t: t ** 2, lambda t: 0 * t][int(rng.integers(6))]
    y = f(x) + rng.uniform(-1, 1, n) * rng.choice([.2, 1])
    x, y = x * rng.uniform(.1, 30) + rng.normal() * 5, y * rng.uniform(.1, 30)
    x0, y0 = x.copy(), y.copy()
    ctx.case(ctx.case_seed, n)
    ctx.event('pairs')
    A = M.ANM()
    r = A.cause_or_effect(x, y)
    ctx.check(len(r) == 2, 'score/two-values', str(r))
    a, b = r
    tol = dict(rtol=2e-2, atol=1e-2)
    ctx.close(a, score_ref(x, y), 'score/forward', f'n={n}', **tol)
    ctx.close(b, score_ref(y, x), 'score/backward', f'n={n}', **tol)
    c, d = A.cause_or_effect(y, x)
    ctx.close((d, c), (a, b), 'score/swap', f'n={n}', **tol)
    ctx.close(M.ANM().cause_or_effect(x, y), (a, b), 'score/repeat', f'n={n}', rtol=1e-9)
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0), 'score/argument-changed', '')
    p = rng.permutation(n)
    ctx.close(A.cause_or_effect(x[p], y[p]), (a, b), 'score/record-order', f'n={n}', **tol)
    ctx.close(A.cause_or_effect(-4 * x + 3, .5 * y - 9), (a, b), 'score/affine', f'n={n}', **tol)
    u, v = 10 ** rng.uniform(-6, 6, 2)
    ctx.close(A.cause_or_effect(u * x, -v * y), (a, b), 'score/units', lambda: f'n={n} units {u} {v}', **tol)
    ctx.close(A.cause_or_effect(pd.Series(x, index=p), pd.Series(y, index=p)), (a, b), 'score/series', f'n={n}', **tol)
    ctx.close(A.cause_or_effect(list(x), list(y)), (a, b), 'score/list', f'n={n}', **tol)
    xs, ys = std(x).reshape(-1, 1), std(y).reshape(-1, 1)
    ctx.close(A.anm_score(xs, ys), a, 'score/one-direction', f'n={n}', **tol)


@monitor(8, 48, cpu=400, need=dict(pooled=5))
def direction(ctx):
    """the generating direction of clear additive noise models gets the lower score in most of 10 data sets"""
    M, rng = mod(), ctx.rng
    ok = 0
    for k in range(10):
        n = int(rng.choice([200, 350]))
        x = rng.uniform(-1, 1, n) if ctx.index % 2 else rng.normal(size=n)
        y = [lambda t: t + t ** 3, lambda t: np.sin(3 * t), np.exp, lambda t: t ** 2][ctx.index // 2 % 4](x) + rng.uniform(-.3, .3, n)
        if k % 2:
            ok += np.subtract(*M.ANM().cause_or_effect(x, y)) < 0
        else:
            ok += np.subtract(*M.ANM().cause_or_effect(y, x)) > 0
        ctx.case(ctx.case_seed, k)
    ctx.event('pooled')
    ctx.check(ok >= 7, 'direction/recovery', f'case {ctx.index}: {ok} of 10')


@monitor(2, 12, cpu=300, need=dict(large=1))
def large(ctx):
    """more than 2000 records: normalised HSIC over 2000 evenly spaced records of both variables"""
    M, rng = mod(), ctx.rng
    n = int(rng.integers(2300, 3600))
    x = rng.normal(size=n)
    y = .3 * x + rng.normal(size=n)
    ctx.case(ctx.case_seed, n)
    ctx.event('large')
    h = M.normalized_hsic(x, y)
    i = np.floor(np.arange(2000) * (n - 1) / 1999).astype(int)
    ctx.close(h, hsic_ref(std(x)[i], std(y)[i]), 'large/subsample', f'n={n}', rtol=2e-2)
    ctx.check(M.normalized_hsic(x, rng.permutation(y)) < h, 'large/dependence', f'n={n}')
