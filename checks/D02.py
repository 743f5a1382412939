"""Time-series simulators: every row satisfies the lagged structural equations it was asked for."""
import numpy as np

from checks.D01 import seeded
from vlib import simtools as S
from vlib.core import Skip, monitor

RULE = ('One case = one set of lag matrices (index l applies to the record max_lag - l steps back), model family, noise law, '
        'scales and seed. The series is an execution trace; the monitor recomputes every step from it. Distinct = matrices, '
        'family and seed; non-trivial = some lagged edge.')
ASSUMPTIONS = ['statistical steps alarm below probability 1e-9', 'the mlp/mim/PNL weights lie in +-[0.5, 2] as drawn today',
               'noise scale zero is accepted and means no noise', 'linear series are stable']


def companion_radius(W):
    L, n, _ = W.shape
    M = np.zeros((L * n, L * n))
    for l in range(L):      # x_t = sum_l x_{t-L+l} W_l ; block order: most recent first
        M[(L - 1 - l) * n:(L - l) * n, :n] = W[l]
    for b in range(L - 1):
        M[b * n:(b + 1) * n, (b + 1) * n:(b + 2) * n] = np.eye(n)
    return max(abs(np.linalg.eigvals(M)))


def gen(rng, nmax=5):
    n = int(rng.integers(1, nmax + 1))
    L = int(rng.integers(1, 5))
    A = (rng.random((L, n, n)) < rng.uniform(.1, .6)).astype(int)
    return n, L, A


def pick_scales(rng, n):
    mode = int(rng.integers(3))
    if mode == 0:
        return np.ones(n), None
    if mode == 1:
        v = float(rng.choice([.25, .5, 2, 3]))
        return np.full(n, v), int(v) if v.is_integer() else v
    s = rng.choice([.5, 1, 2, 3], n).astype(float)
    return s, S.scale_arg(rng, s)


@monitor(quick=160, thorough=2500, cpu=90, need={'law_tests': 120, 'edges': 150, 'z_tests': 10})
def linear(ctx):
    """x_t - sum_l x_(t-L+l) W_l is the declared noise, independent of the past; logistic steps are calibrated"""
    from cdmir.datasets.simlulators import TimeLagSimulator as T
    rng = ctx.rng
    n, L, A = gen(rng)
    kind = str(rng.choice(S.NOISE + ['logistic']))
    W = A * rng.uniform(.3, 1.5, A.shape) * rng.choice([-1, 1], A.shape)
    while companion_radius(W) > .9:
        W = W * .8
    scales, arg = pick_scales(rng, n)
    N = int(rng.choice([1200, 2500]))
    keep = W.copy()
    kw = {} if rng.random() < .5 else dict(max_lag=L)
    X = seeded(ctx, lambda s: T.simulate_linear_anm(W, length=N, noise_type=kind, noise_scale=arg, seed=s, **kw), kind)
    ctx.case(n, L, kind, W.round(3).tolist())
    ctx.event('edges', A.sum())
    ctx.check(np.array_equal(W, keep), 'argument-changed', '')
    what = f'{kind} n={n} L={L} scales={scales.tolist()}'
    if not ctx.check(isinstance(X, np.ndarray) and X.shape == (N + L, n), 'shape', f'{np.shape(X)} for {what}'):
        return
    eta = np.zeros((N, n))
    for l in range(L):
        eta += X[l:l + N] @ W[l]
    if kind == 'logistic':
        V = X[L:]
        ctx.check(np.isin(V, [0., 1.]).all(), 'logistic-range', what)
        P = 1 / (1 + np.exp(-eta))
        for j in range(n):
            d, v = V[:, j] - P[:, j], P[:, j] * (1 - P[:, j])
            S.zcheck(ctx, d.sum(), v.sum(), 'logistic-calibration', f'{what} variable {j}')
            for k in range(n):
                for l in range(L):
                    S.zcheck(ctx, (d * X[l:l + N, k]).sum(), (v * X[l:l + N, k] ** 2).sum(), 'logistic-calibration',
                             f'{what} variable {j}, lag matrix {l}, cause {k}', 8)
    else:
        R = X[L:] - eta
        for j in range(n):
            S.check_law(ctx, R[:, j], kind, scales[j], 'linear-noise', f'{what} variable {j}')
            S.check_indep(ctx, R[1:, j], R[:-1, j], 'noise-not-iid', f'{what} variable {j}')
            for k in range(j):
                S.check_indep(ctx, R[:, j], R[:, k], 'noise-dependent', f'{what} {j}, {k}')
            for k in range(n):
                S.check_indep(ctx, R[:, j], X[L - 1:-1, k], 'noise-dependent', f'{what} {j} and past {k}')
    ctx.raises(lambda: T.simulate_linear_anm(W, L + 1, 10), 'lag-mismatch', what, ValueError)
    ctx.raises(lambda: T.simulate_linear_anm(W, L, 10, 'gauss', [1.] * (n + 1)), 'scale-length', what, ValueError)


@monitor(quick=30, thorough=300, cpu=90, need={'law_tests': 30})
def initial_rows(ctx):
    """the first max_lag rows are pure noise of the declared scales (pooled over seeds)"""
    from cdmir.datasets.simlulators import TimeLagSimulator as T
    rng = ctx.rng
    n, L, A = gen(rng)
    kind = str(rng.choice(S.NOISE))
    scales, arg = pick_scales(rng, n)
    fam = str(rng.choice(['linear', 'nonlinear', 'pnl']))
    f = {'linear': T.simulate_linear_anm, 'nonlinear': T.simulate_nonlinear_anm, 'pnl': T.simulate_pnl}[fam]
    s0 = int(rng.integers(1, 10 ** 8))
    rows = []
    for s in range(s0, s0 + 250):
        X = f(A.astype(float), L, 1, kind, arg, seed=s)
        ctx.check(X.shape == (L + 1, n), 'shape', f'{fam} {X.shape}')
        rows.append(X[:L])
    R = np.array(rows)
    ctx.case(fam, kind, A.tolist(), s0)
    for j in range(n):
        S.check_law(ctx, R[:, :, j].ravel(), kind, scales[j], 'initial-noise', f'{fam} variable {j}')


@monitor(quick=300, thorough=4000, cpu=90, need={'unchanged': 100, 'changed': 100, 'edges': 200, 'law_tests': 20})
def interventions(ctx):
    """re-running with another noise scale on one variable changes exactly what it can reach; noise is additive"""
    from cdmir.datasets.simlulators import TimeLagSimulator as T
    rng = ctx.rng
    n, L, A = gen(rng)
    kind = str(rng.choice(S.NOISE))
    fam = str(rng.choice(['mlp', 'mim', 'pnl', 'linear']))
    kw, N = {}, int(rng.choice([40, 300]))
    M = A.astype(float)
    if fam in ('mlp', 'mim'):
        kw['func_type'] = fam
        if fam == 'mlp' and rng.random() < .5:
            kw['hidden'] = int(rng.choice([1, 4, 20]))
        f = T.simulate_nonlinear_anm
    elif fam == 'pnl':
        names = ['tanh', 'leaky_relu', 'cos', 'linear']
        for k in ('func1_type', 'func2_type'):
            if rng.random() < .8:
                kw[k] = str(rng.choice(names)) if rng.random() < .5 else [str(v) for v in rng.choice(names, 2)]
        # keep the series bounded
        if not ({'tanh', 'cos'} & set(np.atleast_1d(kw.get('func1_type', 'tanh')))):
            kw['func1_type'] = 'tanh'
        if 'linear' in np.atleast_1d(kw.get('func1_type', '')) and 'linear' in np.atleast_1d(kw.get('func2_type', '')) \
                and rng.random() < .6:
            kw['hidden'] = int(rng.choice([1, 3, 6]))
        if rng.random() < .3:
            kw['neg_slope'] = .5
        f = T.simulate_pnl
    else:
        f = T.simulate_linear_anm
        M = M * rng.uniform(.3, 1., A.shape) * rng.choice([-1, 1], A.shape)
        while companion_radius(M) > .9:
            M = M * .8
    base = rng.choice([.5, 1., 2.], n)
    seed = int(rng.integers(1, 2 ** 31 - 1))
    X = f(M, L, N, kind, S.scale_arg(rng, base), seed=seed, **kw)
    what = f'{fam} {kw} {kind} A={A.tolist()} scales={base.tolist()} seed={seed}'
    ctx.case(what)
    ctx.event('edges', A.sum())
    if not ctx.check(X.shape == (N + L, n) and np.isfinite(X).all(), 'shape', what):
        return
    np.random.rand(3)
    ctx.check(np.array_equal(X, f(M, L, N, kind, S.scale_arg(rng, base), seed=seed, **kw)), 'seed', what)
    ctx.check(not np.array_equal(X, f(M, L, N, kind, S.scale_arg(rng, base), seed=seed + 1, **kw)), 'seed', what + ' other')
    G = (A.sum(axis=0) > 0).astype(int)
    for k in range(n):
        other = base.copy()
        other[k] = 3.
        Y = f(M, L, N, kind, S.scale_arg(rng, other), seed=seed, **kw)
        desc = S.descendants(G, k)
        for j in range(n):
            if j not in desc:
                ctx.event('unchanged')
                ctx.check(np.array_equal(X[:, j], Y[:, j]), 'spurious-dependence',
                          f'{what}: variable {j} depends on the noise of {k}, which does not reach it')
            elif j == k or G[k, j]:
                ctx.event('changed')
                ctx.check(not np.array_equal(X[L:, j], Y[L:, j]), 'missing-dependence',
                          f'{what}: variable {j} does not depend on {k}')
        if fam != 'pnl' and not G[k].any():      # k influences nothing, not even itself: its noise is isolated
            e = (Y[:, k] - X[:, k]) / (3. - base[k])
            S.check_law(ctx, e, kind, 1., 'additive-noise', f'{what}: variable {k}')
            S.check_indep(ctx, e[1:], e[:-1], 'noise-not-iid', f'{what}: variable {k}')
            g = (X[:, k] - base[k] * e)[L:]
            if not G[:, k].any():
                ctx.check(np.abs(g).max() < 1e-8, 'parentless-noise', f'{what}: {k} is not pure noise')
            elif fam == 'mim':
                ctx.check(np.abs(g).max() <= 3 + 1e-9, 'mim-range', what)
            elif fam == 'mlp':
                ctx.check(np.abs(g).max() <= 2 * kw.get('hidden', 100) + 1e-9, 'mlp-range', what)
    ctx.raises(lambda: f(M, L + 1, 10, **kw), 'lag-mismatch', what, ValueError)
    ctx.raises(lambda: f(M, L, 10, kind, [1.] * (n + 1), **kw), 'scale-length', what, ValueError)


@monitor(quick=300, thorough=5000, cpu=60, need={'fitted': 40, 'exact': 30})
def functions(ctx):
    """noise-free variables follow one fixed function of their lagged causes, of exactly the requested family"""
    from cdmir.datasets.simlulators import TimeLagSimulator as T
    rng = ctx.rng
    N = 400
    mode = str(rng.choice(['mlp', 'mim', 'pnl_sum', 'pnl_linear', 'pnl_noise']))
    kind = str(rng.choice(['gauss', 'laplace', 'uniform']))
    seed = int(rng.integers(1, 2 ** 31 - 1))
    L = int(rng.integers(1, 5))
    if mode == 'pnl_noise':
        ns = float(rng.choice([.1, .3, .6]))
        A = (rng.random((L, 1, 1)) < .6).astype(int)
        f1 = [str(v) for v in rng.choice(['tanh', 'cos'], int(rng.integers(1, 3)))]
        f2 = str(rng.choice(['leaky_relu', 'tanh']))
        if f1[0] == 'cos' and not A.all():
            f1 = ['tanh']
        sc = float(rng.choice([.3, .6]))
        X = T.simulate_pnl(A, L, 1500, kind, sc, seed=seed, func1_type=f1, func2_type=f2, neg_slope=ns)[:, 0]
        v = X[L:]
        with np.errstate(all='ignore'):
            u = np.arctanh(v) if f2 == 'tanh' else np.where(v > 0, v, v / ns)
        drive = sum(S.compose(f1, [], ns, X[l:l + 1500] * A[l, 0, 0]) for l in range(L))
        if f2 == 'tanh' and np.abs(drive).max() > 3.5:
            raise Skip()
        what = f'{f1} {f2} lags={A.ravel().tolist()} scale={sc} slope={ns} seed={seed}'
        ctx.case(what)
        if f2 == 'tanh':
            ok = np.abs(v) < 1 - 1e-12
            if not ok.all():
                raise Skip()
        S.check_law(ctx, u - drive, kind, sc, 'pnl-noise', what)
        S.check_indep(ctx, (u - drive)[1:], (u - drive)[:-1], 'pnl-noise', what)
        ctx.event('exact')
        return
    r = 1 if mode == 'mim' else int(rng.integers(1, 4))
    n = r + 1
    perm = rng.permutation(n)
    j, pa = int(perm[-1]), perm[:-1]
    A = np.zeros((L, n, n), int)
    cols = []
    for p in pa:
        lags = [int(rng.integers(L))] if mode == 'mim' or rng.random() < .5 else np.flatnonzero(rng.random(L) < .6)
        for l in lags:
            A[l, p, j] = 1
            cols.append((int(l), int(p)))
    if not cols:
        raise Skip()
    scales = np.full(n, float(rng.choice([1, 2])))
    scales[j] = 0.
    arg = S.scale_arg(rng, scales)
    lagged = lambda X: np.array([X[l:l + N, p] for l, p in cols]).T
    what = f'{mode} {kind} L={L} child={j} causes(lag index, variable)={cols} scales={scales.tolist()} seed={seed}'
    ctx.case(what)
    if mode == 'mlp':
        f = lambda sc: T.simulate_nonlinear_anm(A, L, N, kind, sc, seed=seed, func_type='mlp', hidden=1)
        X, Z = f(arg), f(np.zeros(n))
        w2 = 2 * Z[L, j]
        ctx.check(np.ptp(Z[L:, j]) < 1e-12 and .5 - 1e-9 <= abs(w2) <= 2 + 1e-9, 'mlp-form',
                  f'{what}: with all causes at zero the value varies or is out of range: {Z[L:L + 4, j]}')
        q = X[L:, j] / w2
        ctx.check((q >= 0).all() and (q <= 1).all(), 'mlp-form', f'{what}: outside (0, w2)')
        keep = (q > 1e-4) & (q < 1 - 1e-4)
        if keep.sum() < 50:
            raise Skip()
        logit, D = np.log(q[keep] / (1 - q[keep])), lagged(X)[keep]
        w, *_ = np.linalg.lstsq(D, logit, rcond=None)
        ctx.close(D @ w, logit, 'mlp-form', f'{what}: not one fixed one-unit perceptron of the lagged causes', 1e-6, 1e-6)
        ctx.check(((abs(w) > .5 - 1e-6) & (abs(w) < 2 + 1e-6)).all(), 'mlp-weights', f'{what}: {w}')
        ctx.event('fitted')
    elif mode == 'mim':
        X = T.simulate_nonlinear_anm(A, L, N, kind, arg, seed=seed, func_type='mim')
        Z = T.simulate_nonlinear_anm(A, L, 20, kind, np.zeros(n), seed=seed, func_type='mim')
        ctx.close(Z[L:, j], np.ones(20), 'mim-form', f'{what}: tanh 0 + cos 0 + sin 0')
        ok, w, e = S.fit_weights(lambda w, x: np.tanh(w[0] * x) + np.cos(w[1] * x) + np.sin(w[2] * x),
                                 lagged(X)[:, 0], X[L:, j], 3)
        ctx.check(ok, 'mim-form', f'{what}: no fixed tanh(ax)+cos(bx)+sin(cx) fits, best error {e}')
        ctx.event('fitted')
    elif mode == 'pnl_sum':
        f1 = [str(v) for v in rng.choice(['tanh', 'leaky_relu'], int(rng.integers(1, 4)))]
        f2 = [str(v) for v in rng.choice(['tanh', 'leaky_relu', 'cos'], int(rng.integers(1, 4)))]
        ns = float(rng.choice([.1, .2, .5, 1.5]))
        a1, a2 = (x[0] if len(x) == 1 and rng.random() < .5 else x for x in (f1, f2))
        X = T.simulate_pnl(A, L, N, kind, arg, seed=seed, func1_type=a1, func2_type=a2, **({} if ns == .2 else dict(neg_slope=ns)))
        D = lagged(X)
        want = np.zeros(N)
        for p in pa:
            inner = np.zeros(N)
            for c, (l, q) in enumerate(cols):
                if q == p:
                    inner += S.compose(f1, [], ns, D[:, c])
            want += S.compose(f2, [], ns, inner)
        diff = X[L:, j] - want
        ctx.check(np.ptp(diff) < 1e-8, 'pnl-form', f'{what}: {f1} then {f2}: differs by {diff[:4]}')
        if 'cos' not in f2:
            ctx.check(np.abs(diff).max() < 1e-8, 'pnl-form', f'{what}: {f1} then {f2}: offset {diff[0]}')
        ctx.event('exact')
    else:
        h = None if rng.random() < .4 else int(rng.integers(1, 6))
        X = T.simulate_pnl(A, L, N, kind, arg, seed=seed, func1_type='linear', func2_type='linear', hidden=h)
        D = lagged(X)
        w, *_ = np.linalg.lstsq(D, X[L:, j], rcond=None)
        ctx.close(D @ w, X[L:, j], 'pnl-form', f'{what}: linear then linear, hidden={h}', 1e-7, 1e-7)
        ctx.check((abs(w) <= 4 * (h or n) + 1e-6).all(), 'pnl-form', f'{what}: {w}')
        ctx.event('exact')


@monitor(quick=10, thorough=120, cpu=200, need={'weights': 150})
def weight_spread(ctx):
    """over many seeds the drawn weights fill their declared range: magnitudes spread over [.5, 2], both signs"""
    from cdmir.datasets.simlulators import TimeLagSimulator as T
    rng = ctx.rng
    family = ['mlp', 'mim', 'linear', 'mlp', 'mim'][ctx.index % 5]
    W, W2 = [], []
    for s in rng.integers(1, 2 ** 31 - 1, 50 if family != 'mim' else 32):
        s, two = int(s), family == 'mlp'
        A = np.zeros((1, 2 + two, 2 + two), int)
        A[0, :-1, -1] = 1
        sc = np.r_[np.ones(1 + two), 0.]
        if family == 'mlp':
            f = lambda v: T.simulate_nonlinear_anm(A, 1, 60, 'uniform', v, seed=s, func_type='mlp', hidden=1)
            X, b = f(sc), 2 * f(sc * 0)[1, -1]
            q = X[1:, -1] / b
            W2.append(b)
            W += list(np.linalg.lstsq(X[:-1, :2], np.log(q / (1 - q)), rcond=None)[0])
        elif family == 'mim':       # two parents, silenced in turn: the mechanism of a seed does not depend on the scales
            A = np.zeros((1, 3, 3), int)
            A[0, :2, 2] = 1
            fits = []
            for q in (0, 1):
                X = T.simulate_nonlinear_anm(A, 1, 150, 'uniform', np.array([1. - q, float(q), 0.]), seed=s, func_type='mim')
                fits.append(S.fit_weights(lambda w, x: np.tanh(w[0] * x) + np.cos(w[1] * x) + np.sin(w[2] * x),
                                          X[:-1, q], X[1:, 2], 3))
            if all(f[0] for f in fits):
                W += [f[1][0] for f in fits]
                W2 += [f[1][2] for f in fits]
        else:
            X = T.simulate_pnl(A, 1, 60, 'uniform', sc, seed=s, func1_type='tanh', func2_type='linear')
            v = np.tanh(X[:-1, 0])
            W.append(float(v @ X[1:, 1] / (v @ v)))
    ctx.case(ctx.case_seed)
    ctx.event('weights', len(W) + len(W2))
    S.weight_pool(ctx, W, f'{family} inner')
    if W2:
        S.weight_pool(ctx, W2, f'{family} outer')
    if family == 'mim':
        S.sign_pool(ctx, np.array(W) * np.array(W2), 'mim tanh and sin weights')
        for w in (W, W2):
            S.sign_pool(ctx, np.prod(np.reshape(w, (-1, 2)), axis=1), 'mim weights of two parents')
    if family == 'mlp':
        S.sign_pool(ctx, np.prod(np.reshape(W, (-1, 2)), axis=1), 'mlp pairs of inner weights')
        S.sign_pool(ctx, np.array(W2) * np.array(W)[::2], 'mlp inner and outer weights')


@monitor(quick=24, thorough=300, cpu=60, need={'law_tests': 20})
def terms(ctx):
    """post-nonlinear steps add one independent noise per hidden term: with an identity outer function their sum is that of
    as many independent noises"""
    from cdmir.datasets.simlulators import TimeLagSimulator as T
    rng = ctx.rng
    n, L, N = int(rng.integers(2, 6)), int(rng.integers(1, 4)), 1500
    A = (rng.random((L, n, n)) < .35).astype(int)
    sc = float(rng.choice([.5, 1., 2.]))
    seed = int(rng.integers(2 ** 31 - 1))
    X = T.simulate_pnl(A, L, N, 'gauss', sc, seed=seed, func1_type='tanh', func2_type='leaky_relu', neg_slope=1.)
    ctx.case(n, L, sc, seed)
    U = np.array([X[L + t] - sum(np.tanh(X[t + l]) @ A[l] for l in range(L)) for t in range(N)])
    for j in range(n):
        S.check_law(ctx, U[:, j] / (sc * np.sqrt(n)), 'gauss', 1., 'pnl-terms', f'n={n} L={L} scale={sc} variable {j} seed={seed}')
        S.check_indep(ctx, U[:, j], U[:, (j + 1) % n], 'pnl-terms', f'n={n} L={L} seed={seed}')
