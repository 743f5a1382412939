"""Structural-equation utilities of the entropy package: graphs, parameters, samples and accuracy counts."""
import random as pyrandom

import numpy as np
from scipy import stats

from vlib import simtools as S
from vlib.core import Skip, monitor

RULE = ('One case = one graph size, family, noise law, scales and seed; the generated graph or table is replayed as an '
        'execution trace against the declared equations, or one pair of graphs whose accuracy counts are recounted over '
        'variable pairs. Distinct = parameters and seed; non-trivial = the graph has an edge.')
ASSUMPTIONS = ['statistical steps alarm below probability 1e-9', 'seeding is by the global generators, as set_random_seed does',
               'gumbel and uniform noise have unit variance at scale 1, as implemented (a docstring says otherwise)',
               'an estimate never lists a pair both as directed and as undirected']
NOISE = ['gauss', 'exp', 'gumbel', 'uniform']


def lib():
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
    return utils


def unit(kind, e, scale):
    """noise of the family at `scale`, in the parametrisation of vlib.simtools"""
    return {'gauss': ('gauss', scale), 'exp': ('exp', scale), 'gumbel': ('gumbel', scale * np.sqrt(6) / np.pi),
            'uniform': ('uniform', scale * np.sqrt(3))}[kind]


def seeded(ctx, U, call, what):
    s = int(ctx.rng.integers(0, 2 ** 31 - 1))
    U.set_random_seed(s)
    a = call()
    np.random.seed(5)
    pyrandom.seed(6)
    U.set_random_seed(s)
    b = call()
    U.set_random_seed(s + 1)
    c = call()
    ctx.check(np.array_equal(a, b), 'seed', f'{what}: the same seed {s} gave other results')
    ctx.event('seed_checks')
    return a, c


def random_weights(rng, A, lo, hi):
    return A * rng.uniform(lo, hi, A.shape) * rng.choice([-1, 1], A.shape)


def acyclic(A):
    A = (np.asarray(A) != 0).astype(float)
    M = np.eye(len(A))
    for _ in range(len(A)):
        M = M @ A
        M = (M > 0).astype(float)
    return not M.any()


@monitor(quick=150, thorough=3000, cpu=60, need={'graphs': 400, 'edges': 1000, 'cyclic': 30})
def graphs(ctx):
    """random graphs: 0/1, acyclic, declared edge count for each type, any variable order; is_dag is exact"""
    U, rng = lib(), ctx.rng
    t = str(rng.choice(['ER', 'SF', 'BP']))
    d = int(rng.integers(1, 15)) if t != 'BP' else int(rng.integers(5, 20))
    if t == 'ER':
        s0 = int(rng.integers(0, d * (d - 1) // 2 + 1))
        want = s0
    elif t == 'SF':
        s0 = int(rng.integers(0, 4 * d))
        m = int(round(s0 / d))
        want = sum(min(i, m) for i in range(d))
    else:
        top = int(.2 * d)
        s0 = int(rng.integers(0, top * (d - top) + 1))
        want = s0
    ctx.case(t, d, s0)
    for k in range(4):
        if k == 0:
            B, _ = seeded(ctx, U, lambda: U.simulate_dag(d, s0, t), f'{t} {d} {s0}')
        else:
            B = U.simulate_dag(d, s0, t)
        ctx.event('graphs')
        what = f'{t} d={d} s0={s0}: {np.asarray(B).tolist()}'
        if not ctx.check(np.shape(B) == (d, d) and np.isin(B, [0, 1]).all(), 'not-binary', what):
            return
        ctx.event('edges', B.sum())
        ctx.check(acyclic(B), 'cyclic', what)
        ctx.check(B.sum() == want, 'edge-count', f'{what}: {B.sum()} edges, declared {want}')
        ctx.check(bool(U.is_dag(B)), 'is-dag', what)
        if t == 'BP':
            ctx.check(not ((B.sum(axis=0) > 0) & (B.sum(axis=1) > 0)).any(), 'not-bipartite', what)
            ctx.check((B.sum(axis=1) > 0).sum() <= top, 'not-bipartite', f'{what}: more than {top} sources')
        if t == 'SF':
            ctx.check(B.sum(axis=1).max() <= m or B.sum(axis=0).max() <= m, 'scale-free', what)
    # is_dag on arbitrary weighted matrices
    n = int(rng.integers(1, 8))
    W = rng.normal(size=(n, n)) * (rng.random((n, n)) < rng.uniform(.05, .4))
    if rng.random() < .5:
        np.fill_diagonal(W, 0)
    if rng.random() < .3:
        W = np.round(W).astype(int)
    keep = W.copy()
    ctx.check(bool(U.is_dag(W)) == acyclic(W), 'is-dag', f'{W.tolist()}')
    ctx.check(np.array_equal(keep, W), 'argument-changed', 'is_dag')
    if not acyclic(W):
        ctx.event('cyclic')
    if ctx.index % 10 == 0:
        ctx.raises(lambda: U.simulate_dag(5, 4, 'XX'), 'unknown-type', 'graph type XX', ValueError)


@monitor(quick=12, thorough=100, cpu=90, need={'law_tests': 20})
def orders(ctx):
    """every variable order is possible: each ordered pair is as often connected as any other"""
    U, rng = lib(), ctx.rng
    t = str(rng.choice(['ER', 'SF', 'BP']))
    d, s0 = {'ER': (4, 3), 'SF': (4, 4), 'BP': (5, 3)}[t]
    R = 1500
    U.set_random_seed(int(rng.integers(2 ** 31)))
    C = np.zeros((d, d))
    for _ in range(R):
        B = U.simulate_dag(d, s0, t)
        C += B
    ctx.case(t, d, s0, ctx.index)
    off = ~np.eye(d, dtype=bool)
    p = C[off].sum() / (R * off.sum())
    z = (C[off] - R * p) / np.sqrt(R * p * (1 - p))
    ctx.event('law_tests', off.sum())
    ctx.check(np.abs(z).max() < 6.5, 'order-biased', f'{t}: ordered pair frequencies {np.round(C / R, 3).tolist()}, expected {p:.3f}')


@monitor(quick=150, thorough=3000, cpu=60, need={'weights': 2000, 'law_tests': 150})
def parameters(ctx):
    """weights: support of the graph, each range equally likely, uniform within its range"""
    U, rng = lib(), ctx.rng
    d = int(rng.integers(2, 30))
    B = S.random_dag(rng, d, rng.uniform(.2, .9))
    if rng.random() < .5:
        B = B.astype(float)
    k = int(rng.integers(4))
    ranges = [((-2., -.5), (.5, 2.)), ((.3, .9),), ((-3., -2.), (-1., 0.), (1., 4.)), ((-.5, .5), (5, 6))][k]
    keep = B.copy()
    call = (lambda: U.simulate_parameter(B)) if k == 0 and rng.random() < .5 else (lambda: U.simulate_parameter(B, ranges))
    W, W2 = seeded(ctx, U, call, f'ranges {ranges}')
    ctx.case(d, ranges, B.astype(int).tolist())
    ctx.check(np.array_equal(B, keep), 'argument-changed', 'simulate_parameter')
    ctx.check(W.shape == B.shape and np.array_equal(W != 0, B != 0), 'support', f'{W.tolist()} for {B.tolist()}')
    w = W[B != 0]
    if not len(w):
        return
    ctx.event('weights', len(w))
    ctx.check(not np.array_equal(W, W2), 'seed', 'another seed gave the same weights')
    pooled = w
    for _ in range(1 + 400 // len(w)):
        pooled = np.concatenate([pooled, call()[B != 0]])
    part = np.array([(pooled >= lo) & (pooled <= hi) for lo, hi in ranges])
    ctx.check((part.sum(axis=0) == 1).all(), 'range', f'weights outside {ranges}: {pooled[part.sum(axis=0) != 1][:4]}')
    n = len(pooled)
    for (lo, hi), m in zip(ranges, part):
        p = 1 / len(ranges)
        if len(ranges) > 1:
            S.zcheck(ctx, m.sum() - n * p, n * p * (1 - p), 'range-choice', f'{ranges}: {m.sum()} of {n} in {lo, hi}')
        ctx.check(stats.kstest(pooled[m], stats.uniform(lo, hi - lo).cdf).pvalue > 1e-10, 'range-law', f'{lo, hi}')
        ctx.event('law_tests')


def judge_linear(ctx, X, W, A, kind, scales, tag):
    N, n = X.shape
    eta = X @ W
    if kind in NOISE:
        R = X - eta
        for j in range(n):
            if scales is not None:
                nm, sc = unit(kind, R, scales[j])
                S.check_law(ctx, R[:, j], nm, sc, tag + '-noise', f'variable {j} (parents {np.flatnonzero(A[:, j])}), {kind}')
            S.check_indep(ctx, R[1:, j], R[:-1, j], tag + '-not-iid', f'variable {j}')
            for k in range(n):
                if k < j:
                    S.check_indep(ctx, R[:, j], R[:, k], tag + '-dependent', f'noises {j}, {k}')
                if A[k, j]:
                    S.check_indep(ctx, R[:, j], X[:, k], tag + '-dependent', f'noise of {j}, parent {k}')
        return R
    if kind == 'logistic':
        ctx.check(np.isin(X, [0., 1.]).all(), 'logistic-range', f'{np.unique(X)[:5]}')
        P = 1 / (1 + np.exp(-eta))
        for j in range(n):
            d, v = X[:, j] - P[:, j], P[:, j] * (1 - P[:, j])
            S.zcheck(ctx, d.sum(), v.sum(), 'logistic-calibration', f'variable {j}')
            for k in np.flatnonzero(A[:, j]):
                S.zcheck(ctx, (d * (X[:, k] - .5)).sum(), (v * .25).sum(), 'logistic-calibration', f'variable {j}, parent {k}')
    else:
        if eta.max() > 6:
            raise Skip()
        ctx.check((X >= 0).all() and (X == np.round(X)).all(), 'poisson-range', f'{np.unique(X)[:5]}')
        M = np.exp(eta)
        for j in range(n):
            d = X[:, j] - M[:, j]
            S.zcheck(ctx, d.sum(), M[:, j].sum(), 'poisson-calibration', f'variable {j}', 8)
            S.zcheck(ctx, (d * eta[:, j]).sum(), (M[:, j] * eta[:, j] ** 2).sum(), 'poisson-calibration', f'{j}, slope', 9)


@monitor(quick=160, thorough=3000, cpu=60, need={'law_tests': 200, 'edges': 200, 'z_tests': 30, 'refused': 20})
def linear(ctx):
    """linear samples: residuals are the declared noise; logistic and Poisson are calibrated; population form exact"""
    U, rng = lib(), ctx.rng
    n = int(rng.integers(1, 8))
    A = S.random_dag(rng, n, rng.uniform(.2, .8))
    kind = str(rng.choice(NOISE + ['logistic', 'poisson'], p=[.2, .2, .2, .2, .1, .1]))
    if kind == 'poisson' and n > 5:
        kind = 'gumbel'
    W = random_weights(rng, A, *((.1, .25) if kind == 'poisson' else (.3, 2.)))
    N = int(rng.choice([1500, 4000]))
    mode = int(rng.integers(3))
    if mode == 0:
        scales, arg = np.ones(n), None
    elif mode == 1:
        v = float(rng.choice([.25, .5, 2, rng.uniform(.1, 4)]))
        scales, arg = np.full(n, v), v
    else:
        scales = rng.choice([.5, 1, 2, 3], n)
        arg = S.scale_arg(rng, scales)
    keep = W.copy()
    X, X2 = seeded(ctx, U, lambda: U.simulate_linear_sem(W, N, kind, arg), f'linear {kind}')
    ctx.case(n, kind, N, W.round(3).tolist())
    ctx.event('edges', A.sum())
    ctx.check(np.array_equal(W, keep), 'argument-changed', 'weight matrix')
    if not ctx.check(np.shape(X) == (N, n), 'shape', f'{np.shape(X)} != {(N, n)}'):
        return
    ctx.check(not np.array_equal(X, X2), 'seed', 'another seed gave the same sample')
    judge_linear(ctx, X, W, A, kind, scales, 'linear')
    if ctx.index % 3 == 0:
        B = U.simulate_linear_sem(W, np.inf, 'gauss', arg)
        inv = np.linalg.inv(np.eye(n) - W)
        cov = inv.T @ np.diag(np.asarray(scales, float) ** 2) @ inv
        ctx.check(np.shape(B) == (n, n), 'population', f'shape {np.shape(B)}')
        ctx.close(B.T @ B / n, cov, 'population', "X'X/d is not the model covariance", 1e-6, 1e-7 * abs(cov).max())
        ctx.raises(lambda: U.simulate_linear_sem(W, np.inf, 'exp'), 'population', 'non-Gaussian population', ValueError)
        if n > 1:
            C = W.copy()
            i, j = rng.choice(n, 2, replace=False)
            C[i, j], C[j, i] = 1., -.7
            ctx.raises(lambda: U.simulate_linear_sem(C, 50, 'gauss'), 'cycle-accepted', f'{C.tolist()}', ValueError)
            ctx.event('refused')
        ctx.raises(lambda: U.simulate_linear_sem(W, 50, 'gauss', [1.] * (n + 1)), 'scale-length', 'n+1 scales', ValueError)
        ctx.raises(lambda: U.simulate_linear_sem(W, 50, 'nope'), 'unknown-type', 'sem type', ValueError)
        ctx.event('refused', 2)


@monitor(quick=80, thorough=1500, cpu=60, need={'scales': 150})
def variable_scale(ctx):
    """variable-scale samples: every variable has its own noise scale inside the declared interval"""
    U, rng = lib(), ctx.rng
    n = int(rng.integers(1, 7))
    A = S.random_dag(rng, n, rng.uniform(.2, .8))
    kind = str(rng.choice(NOISE + ['logistic', 'poisson'], p=[.2, .2, .2, .2, .1, .1]))
    W = random_weights(rng, A, .3, 2.) if kind != 'poisson' else random_weights(rng, A, .1, .3)
    lo, hi = [(1., 10.), (2., 3.), (.1, .2)][int(rng.integers(3))]
    N = 3000
    kw = {} if (lo, hi) == (1., 10.) and rng.random() < .5 else dict(scale_low=lo, scale_high=hi)
    X, X2 = seeded(ctx, U, lambda: U.simulate_linear_sem_variable_scale(W, N, kind, **kw), f'variable scale {kind}')
    ctx.case(n, kind, lo, hi, W.round(3).tolist())
    R = judge_linear(ctx, X, W, A, kind, None, 'variable')
    if kind not in NOISE:
        ctx.event('discrete')
        ctx.raises(lambda: U.simulate_linear_sem_variable_scale(W, np.inf, kind), 'population', kind, ValueError)
        return
    sd = R.std(axis=0)
    kurt = {'gauss': 3, 'exp': 9, 'gumbel': 5.4, 'uniform': 1.8}[kind]
    tol = 7 * np.sqrt((kurt - 1) / (4 * N)) * 1.4
    for j in range(n):
        ctx.event('scales')
        ctx.check(lo * (1 - tol) <= sd[j] <= hi * (1 + tol), 'scale-range', f'{kind} variable {j}: sd {sd[j]} not in {lo, hi}')
        nm, sc = unit(kind, None, 1.)
        est = R[:, j].mean() if kind == 'exp' else sd[j]
        p = stats.kstest(R[:, j] / est, S.law(nm, sc).cdf).pvalue
        ctx.check(p > 1e-9, 'variable-noise', f'{kind} variable {j}: shape p={p}')
    if n > 2 and hi > 2 * lo:
        ctx.check(np.ptp(sd / sd.mean()) > 1e-3, 'scale-shared', f'all scales equal: {sd}')
    ctx.raises(lambda: U.simulate_linear_sem_variable_scale(W, 50, 'cauchy'), 'noise-type', 'cauchy', ValueError)
    ctx.raises(lambda: U.simulate_linear_sem(W, 50, 'cauchy'), 'noise-type', 'cauchy', ValueError)
    if ctx.index % 4 == 0 and n > 1:
        C = W.copy()
        i, j = rng.choice(n, 2, replace=False)
        C[i, j], C[j, i] = 1., -.7
        ctx.raises(lambda: U.simulate_linear_sem_variable_scale(C, 50, 'gauss'), 'cycle-accepted', f'{C.tolist()}', ValueError)
        B = U.simulate_linear_sem_variable_scale(W, np.inf, 'gauss', scale_low=2., scale_high=2.)
        inv = np.linalg.inv(np.eye(n) - W)
        ctx.close(B.T @ B / n, 4 * inv.T @ inv, 'population', "X'X/d is not the model covariance", 1e-6, 1e-8)


SEM = ['mlp', 'mim', 'gp', 'gp-add', 'pow2', 'pow3']


@monitor(quick=200, thorough=4000, cpu=90, need={'unchanged': 200, 'changed': 150, 'law_tests': 150, 'edges': 200})
def interventions(ctx):
    """same seed, another noise scale on one variable: only it and its descendants change, and the noise is additive"""
    U, rng = lib(), ctx.rng
    sem = str(rng.choice(SEM))
    n = int(rng.integers(1, 7 if not sem.startswith('pow') else 5))     # powers of powers overflow along long paths
    A = S.random_dag(rng, n, rng.uniform(.2, .8))
    kind = str(rng.choice(NOISE))
    N = 200 if sem.startswith('gp') else 1000
    base = rng.choice([.5, 1., 2.], n)
    k = int(rng.integers(n))
    B = A.astype(float) if rng.random() < .5 else A
    s = int(rng.integers(2 ** 31))

    def call(sc):
        U.set_random_seed(s)
        return U.simulate_nonlinear_sem(B, N, sem, kind, sc)

    keep, kept = B.copy(), base.copy()
    X = call(base)
    what = f'{sem} {kind} scales={base.tolist()} k={k} {A.tolist()} seed={s}'
    ctx.case(what)
    ctx.event('edges', A.sum())
    ctx.check(np.array_equal(B, keep) and np.array_equal(base, kept), 'argument-changed', what)
    if not ctx.check(np.shape(X) == (N, n) and np.isfinite(X).all(), 'shape', f'{what}: {np.shape(X)}'):
        return
    ctx.check(np.array_equal(X, call(base)), 'seed', f'{what}: not repeatable')
    alt = base.copy()
    alt[k] = 3.
    Y = call(alt)
    desc = S.descendants(A, k)
    for j in range(n):
        if j not in desc:
            ctx.event('unchanged')
            ctx.check(np.allclose(X[:, j], Y[:, j], rtol=1e-9, atol=1e-9), 'non-descendant', f'{what}: variable {j} changed')
        elif A[k, j] or j == k:
            ctx.event('changed')
            ctx.check(not np.allclose(X[:, j], Y[:, j]), 'parent-ignored', f'{what}: variable {j} did not change')
    e = (Y[:, k] - X[:, k]) / (3. - base[k])
    if abs(X[:, k]).max() < 1e5:
        nm, sc = unit(kind, e, 1.)
        S.check_law(ctx, e, nm, sc, 'additive-noise', f'{what}: variable {k}')
        S.check_indep(ctx, e[1:], e[:-1], 'noise-not-iid', what)
        f = X[:, k] - base[k] * e
        for p in np.flatnonzero(A[:, k]):
            S.check_indep(ctx, e, X[:, p], 'noise-dependent', f'{what}: noise of {k}, parent {p}')
        if not A[:, k].any():
            ctx.check(np.abs(f).max() < 1e-8 * (1 + np.abs(X[:, k]).max()), 'root-noise', f'{what}: root {k} is not pure noise')
        elif sem == 'mim':
            ctx.check(np.abs(f).max() <= 3 + 1e-8, 'mim-form', f'{what}: {np.abs(f).max()}')
        elif sem == 'mlp':
            ctx.check(np.abs(f).max() <= 200 + 1e-8, 'mlp-form', f'{what}: {np.abs(f).max()}')
    if ctx.index % 5 == 0:
        ctx.raises(lambda: U.simulate_nonlinear_sem(B, 20, sem, 'nope'), 'unknown-type', 'noise law', ValueError)
        if A.any():
            ctx.raises(lambda: U.simulate_nonlinear_sem(B, 20, 'nope'), 'unknown-type', 'sem type', ValueError)
        if n > 1:
            C = A.copy()
            i, j = rng.choice(n, 2, replace=False)
            C[i, j] = C[j, i] = 1
            ctx.raises(lambda: U.simulate_nonlinear_sem(C, 20, sem), 'cycle-accepted', f'{C.tolist()}')
        ctx.event('refused')


@monitor(quick=200, thorough=4000, cpu=90, need={'fitted': 80})
def functions(ctx):
    """noise-free variables: the function of the parents is a member of the requested family"""
    U, rng = lib(), ctx.rng
    sem = str(rng.choice(['mim', 'gp', 'gp-add', 'pow2', 'pow3', 'mlp']))
    kind = str(rng.choice(['gauss', 'uniform']))
    r = 1 if sem in ('mim', 'mlp') else int(rng.integers(1, 4))
    N = 150 if sem.startswith('gp') else 400
    n = r + 1
    perm = rng.permutation(n)
    A = np.zeros((n, n), int)
    j, pa = int(perm[-1]), perm[:-1]
    A[pa, j] = 1
    scales = np.ones(n)
    scales[j] = 0.
    U.set_random_seed(int(rng.integers(2 ** 31)))
    X = U.simulate_nonlinear_sem(A, N, sem, kind, scales)
    P, x = X[:, pa], X[:, j]
    what = f'{sem} {kind} parents={pa.tolist()} child={j}'
    ctx.case(what, X[0].tolist())
    ctx.event('fitted')
    if sem == 'mim':
        ok, w, e = S.fit_weights(lambda w, v: np.tanh(w[0] * v) + np.cos(w[1] * v) + np.sin(w[2] * v), P[:, 0], x, 3)
        ctx.check(ok, 'mim-form', f'{what}: best error {e}')
    elif sem.startswith('pow'):
        from itertools import combinations_with_replacement as cwr
        deg = int(sem[-1])
        F = np.stack([np.prod(P[:, list(c)], axis=1) for c in cwr(range(r), deg)], axis=1)
        w, *_ = np.linalg.lstsq(F, x, rcond=None)
        ctx.close(F @ w, x, 'power-form', f'{what}: not a homogeneous form of degree {deg}', 1e-7, 1e-7 * (1 + abs(x).max()))
        if r == 1:      # 10 hidden units, weights within +-2
            ctx.check(abs(w[0]) <= 10 * 2 ** (deg + 1) + 1e-6, 'power-form', f'{what}: coefficient {w[0]}')
    elif sem == 'mlp':
        o = np.argsort(P[:, 0])
        xs, ys = P[o, 0], x[o]
        slope = np.abs(np.diff(ys)) / np.maximum(np.diff(xs), 1e-12)
        ctx.check((slope <= 100 * 2 * 2 * .25 + 1e-3).all(), 'mlp-form', f'{what}: slope {slope.max()} of a 100-unit perceptron')
    else:
        parts = [P] if sem == 'gp' else [P[:, [i]] for i in range(r)]
        K = sum(np.exp(-.5 * ((Q[:, None] - Q[None]) ** 2).sum(-1)) for Q in parts)
        lam, V = np.linalg.eigh(K)
        keep = lam > 1e-6
        z = (V.T @ x)
        out = np.abs(z[~keep]).max(initial=0)
        ctx.check(out < 2e-2, 'gp-form', f'{what}: outside the kernel range by {out}')
        u = z[keep] / np.sqrt(lam[keep])
        ctx.check(np.abs(u).max() < 7, 'gp-form', f'{what}: standardised coefficient {np.abs(u).max()}')
        p = stats.kstest(u, 'norm').pvalue
        ctx.check(p > 1e-9, 'gp-form', f'{what}: coefficients are not standard normal, p={p}')


@monitor(quick=80, thorough=1500, cpu=60, need={'law_tests': 100})
def pairwise(ctx):
    """cause-effect pairs: declared direction, mechanism and noise"""
    U, rng = lib(), ctx.rng
    kind = str(rng.choice(['gauss', 'uniform', 'exp', 'gumbel', 'logistic', 'poisson']))
    linear, direct = bool(rng.random() < .5), int(rng.integers(2))
    w = float(rng.choice([-1, 1]) * rng.uniform(.2, 3))
    vc, ve = (float(v) for v in rng.choice([.25, 1., 4.], 2))
    N = 3000
    kw = dict(var_cause=vc, var_effect=ve) if rng.random() < .8 else {}
    if not kw:
        vc = ve = 1.
    X, X2 = seeded(ctx, U, lambda: U.simulate_pariwise(w, N, linear, kind, direct, **kw), f'pair {kind}')
    ctx.case(kind, linear, direct, w, vc, ve)
    ctx.check(np.shape(X) == (N, 2), 'shape', f'{np.shape(X)}')
    c, e = (X[:, 1], X[:, 0]) if direct == 1 else (X[:, 0], X[:, 1])
    r = e - (w * c if linear else np.tanh(c) + np.cos(c) + np.sin(c))
    for v, var, nm in ((c, vc, 'cause'), (r, ve, 'effect noise')):
        what = f'{kind} {nm} linear={linear} direct={direct} variances {vc, ve}'
        if kind in ('gauss', 'exp'):
            S.check_law(ctx, v, kind, np.sqrt(var), 'pair-noise', what)
        elif kind == 'uniform':
            S.check_law(ctx, v, kind, np.sqrt(3 * var), 'pair-noise', what)
        elif kind == 'gumbel':      # the scale is sqrt(var) today; a variance-calibrated one would be as good
            ps = [stats.kstest(v, S.law('gumbel', sc).cdf).pvalue for sc in (np.sqrt(var), np.sqrt(6 * var) / np.pi)]
            ctx.check(max(ps) > 1e-10, 'pair-noise', f'{what}: {ps}')
        else:
            t = np.round(v)
            ctx.check(np.allclose(v, t, atol=1e-8), 'pair-noise', f'{what}: not integer-valued')
            q, s2 = (.6, .24) if kind == 'logistic' else (1., 1.)
            S.zcheck(ctx, (t - q).sum(), N * s2, 'pair-noise', what)
    if kind in ('logistic', 'poisson'):
        c, r = np.round(c), np.round(r)
    S.check_indep(ctx, c, r, 'pair-dependent', f'{kind} linear={linear}')
    ctx.check(not np.array_equal(X, X2), 'seed', 'another seed gave the same sample')
    if ctx.index % 8 == 0:
        ctx.raises(lambda: U.simulate_pariwise(1., 10, True, 'nope'), 'unknown-type', 'distribution', ValueError)
        Y = U.simulate_Test(N)
        for v, nm in ((Y[:, 0], 'x0'), (Y[:, 1] - 3 * Y[:, 0], 'x1'), (Y[:, 2] - .6 * Y[:, 1] - Y[:, 0], 'x2')):
            S.check_law(ctx, v, 'gauss', 1., 'test-model', nm)


def ref_counts(T, E):
    d = len(T)
    rev = fp = tp = pred = extra = miss = 0
    cond = sum(1 for i in range(d) for j in range(d) if T[i][j])
    for i in range(d):
        for j in range(d):
            if E[i][j] == 1:
                pred += 1
                if T[i][j]:
                    tp += 1
                elif T[j][i]:
                    rev += 1
                else:
                    fp += 1
            elif E[i][j] == -1:
                pred += 1
                if T[i][j] or T[j][i]:
                    tp += 1
                else:
                    fp += 1
    for i in range(d):
        for j in range(i):
            a, b = bool(T[i][j] or T[j][i]), bool(E[i][j] or E[j][i])
            extra += b and not a
            miss += a and not b
    neg = d * (d - 1) / 2 - cond
    return dict(fdr=(rev + fp) / max(pred, 1), tpr=tp / max(cond, 1), fpr=(rev + fp) / max(neg, 1), shd=extra + miss + rev,
                nnz=pred)


@monitor(quick=600, thorough=15000, cpu=30, need={'pairs': 400, 'undirected': 100, 'rejections_expected': 60, 'reversed': 100})
def accuracy(ctx):
    """count_accuracy against counts over ordered pairs; ill-formed estimates are refused"""
    U, rng = lib(), ctx.rng
    d = int(rng.integers(1, 9))
    T = S.random_dag(rng, d, rng.uniform(0, .9))
    if rng.random() < .6:       # an edit of the truth
        E = T.copy()
        for _ in range(int(rng.integers(0, 5))):
            i, j = (int(v) for v in rng.integers(0, d, 2))
            if i != j:
                F = E.copy()
                F[i, j], F[j, i] = [(0, 0), (1, 0), (0, 1)][int(rng.integers(3))]
                if acyclic(F):
                    E = F
    else:
        E = S.random_dag(rng, d, rng.uniform(0, .9))
    if rng.random() < .5 and E.any():
        for i, j in np.argwhere(E):
            if rng.random() < .5:
                E[i, j] = 0
                E[(i, j) if rng.random() < .5 else (j, i)] = -1
        ctx.event('undirected')
    if rng.random() < .3:
        E = E.astype(float)
    Tt = T.astype(float) if rng.random() < .3 else (random_weights(rng, T, .5, 2) if rng.random() < .2 else T)
    k1, k2 = Tt.copy(), E.copy()
    got = U.count_accuracy(Tt, E)
    want = ref_counts((Tt != 0).tolist(), E.tolist())
    ctx.case(T.tolist(), E.tolist())
    ctx.event('pairs')
    if ((E == 1) & (T.T == 1)).any():
        ctx.event('reversed')
    ctx.check(np.array_equal(k1, Tt) and np.array_equal(k2, E), 'argument-changed', 'count_accuracy')
    for k in want:
        if (Tt == T).all() or k != 'shd':     # weights may cancel in the skeleton sum only when both directions are set
            ctx.check(k in got and abs(got[k] - want[k]) < 1e-9, f'accuracy-{k}', f'{k}: {got.get(k)} want {want[k]}\ntrue '
                      f'{T.tolist()}\nestimate {E.tolist()}')
    if d > 2 and ctx.index % 4 == 0:
        i, j, k = (int(v) for v in rng.choice(d, 3, replace=False))
        Z = np.zeros((d, d))
        for val, nm in ((2, 'entry 2'), (.5, 'entry .5'), (-2, 'entry -2')):
            Q = Z.copy()
            Q[i, j] = val
            ctx.raises(lambda: U.count_accuracy(T, Q), 'ill-formed-accepted', nm, ValueError)
        Q = Z.copy()
        Q[i, j] = -1
        Q[j, k] = 2
        ctx.raises(lambda: U.count_accuracy(T, Q), 'ill-formed-accepted', 'CPDAG with entry 2', ValueError)
        Q = Z.copy()
        Q[i, j] = Q[j, i] = -1
        ctx.raises(lambda: U.count_accuracy(T, Q), 'ill-formed-accepted', 'undirected edge twice', ValueError)
        Q = Z.copy()
        Q[i, j] = Q[j, k] = Q[k, i] = 1
        ctx.raises(lambda: U.count_accuracy(T, Q), 'ill-formed-accepted', 'cyclic estimate', ValueError)


@monitor(quick=20, thorough=100, cpu=30, need={'assertions': 40})
def seeding(ctx):
    """set_seed fixes every generator used by the package, default included"""
    import torch
    U, rng = lib(), ctx.rng

    def draw():
        return np.random.rand(), pyrandom.random(), torch.rand(1).item()

    s = int(rng.integers(2 ** 31))
    U.set_seed(s)
    a = draw()
    draw()
    U.set_seed(s)
    ctx.check(a == draw(), 'seed', f'set_seed({s}) does not fix all generators')
    U.set_seed(s + 1)
    ctx.check(all(x != y for x, y in zip(a, draw())), 'seed', f'set_seed({s + 1}) leaves a generator alone')
    U.set_seed()
    a = draw()
    U.set_seed()
    ctx.check(a == draw(), 'seed', 'set_seed() does not fix all generators')
    ctx.case(s)


@monitor(quick=8, thorough=100, cpu=300, need={'weights': 100})
def weight_spread(ctx):
    """over many draws the random functions vary as declared: signs of outer weights are fair coins, inner ones spread"""
    U, rng = lib(), ctx.rng
    U.set_random_seed(int(rng.integers(2 ** 31)))
    sem = ['pow2', 'mlp', 'mim', 'pow3'][ctx.index % 4]
    W, V = [], []
    A = np.array([[0, 1], [0, 0]])
    for _ in range(50 if sem != 'mim' else 24):
        if sem == 'mlp':
            X = U.simulate_nonlinear_sem(A, 3, sem, 'uniform', np.zeros(2))
            W.append(X[0, 1])
            continue
        X = U.simulate_nonlinear_sem(A, 200, sem, 'uniform', np.array([1., 0]))
        if sem == 'mim':
            ok, w, e = S.fit_weights(lambda w, x: np.tanh(w[0] * x) + np.cos(w[1] * x) + np.sin(w[2] * x), X[:, 0], X[:, 1], 3)
            if ok:
                W.append(w[0])
                V.append(w[2])
        else:
            f = X[:, 0] ** int(sem[-1])
            W.append(float(f @ X[:, 1] / (f @ f)))
    ctx.case(ctx.case_seed)
    ctx.event('weights', len(W) + len(V))
    S.sign_pool(ctx, W, f'{sem}')
    if sem == 'mim':
        S.weight_pool(ctx, W, 'mim tanh')
        S.weight_pool(ctx, V, 'mim sin')
    else:       # sums of 10 or 100 terms: the spread of the sum shows both signs are mixed within one function
        m = np.abs(W).mean()
        n, scale = {'mlp': (100, .25 * 1.75), 'pow2': (10, 1.75 * 4.26), 'pow3': (10, 1.75 * (2 ** 7 - .5 ** 7) / 7 / 1.5)}[sem]
        want = np.sqrt(n * scale * 2 / np.pi)
        ctx.check(.5 * want < m < 1.7 * want, 'weights/spread', f'{sem}: mean size {m}, expected about {want}')
