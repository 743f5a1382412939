"""Simulators of i.i.d. data: every sample satisfies the structural equations it was asked for."""
import random as pyrandom

import numpy as np
import pandas as pd

from vlib import simtools as S
from vlib.core import Skip, monitor

RULE = ('One case = one DAG (its causal order unrelated to the variable numbering), model family, noise law, noise scales and '
        'seed. The generated table is an execution trace; the monitor recomputes every structural equation from it, fits the '
        'declared function families exactly on noise-free variables, and tests the noise against its declared law. Distinct '
        '= DAG, family and seed; non-trivial = the DAG has an edge.')
ASSUMPTIONS = ['statistical steps alarm below probability 1e-9', 'the mlp/mim/PNL weights lie in +-[0.5, 2] as drawn today',
               'noise scale zero is accepted and means no noise']


def weights(rng, A, lo=.5, hi=2.):
    W = A * rng.uniform(lo, hi, A.shape) * rng.choice([-1, 1], A.shape)
    return W


def seeded(ctx, call, what):
    """same seed, same data, whatever the global state; another seed, other data"""
    s = int(ctx.rng.integers(1, 2 ** 31 - 1)) if ctx.rng.random() < .8 else 0
    a = call(s)
    np.random.seed(int(ctx.rng.integers(1000)))
    pyrandom.seed(3)
    np.random.rand(7)
    b = call(s)
    c = call(s + 1)
    ctx.check(np.array_equal(a, b), 'seed', f'{what}: the same seed {s} gave other data')
    ctx.check(not np.array_equal(a, c), 'seed', f'{what}: seeds {s} and {s + 1} gave the same data')
    ctx.event('seed_checks')
    return a


@monitor(quick=160, thorough=3000, cpu=60, need={'law_tests': 200, 'edges': 200, 'z_tests': 30, 'refused': 20})
def linear(ctx):
    """linear model: residuals are the declared noise; logistic and Poisson are calibrated; population form exact"""
    from cdmir.datasets.simlulators import IIDSimulator as I
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    A = S.random_dag(rng, n, rng.uniform(.2, .8))
    kind = str(rng.choice(S.NOISE + ['logistic', 'poisson']))
    if kind == 'poisson' and n > 5:      # exp(linear) explodes along long chains
        kind = 'exp'
    W = weights(rng, A, *((.1, .3) if kind == 'poisson' else (.3, 2.)))
    N = int(rng.choice([1500, 4000]))
    mode = int(rng.integers(3))
    if mode == 0:
        scales, arg = np.ones(n), None
    elif mode == 1:
        v = float(rng.choice([.25, .5, 2, 3, rng.uniform(.1, 4)]))
        scales, arg = np.full(n, v), v if rng.random() < .5 or not v.is_integer() else int(v)
    else:
        scales = rng.choice([.5, 1, 2, 3], n) if rng.random() < .5 else rng.integers(1, 5, n).astype(float)
        arg = S.scale_arg(rng, scales)
    warg = pd.DataFrame(W) if rng.random() < .3 else W.copy()
    keep = np.array(warg, copy=True)
    if kind == 'poisson':
        W = np.where(A.sum(axis=1, keepdims=True) & (A.sum(axis=0, keepdims=True) > 2), W / 2, W)
        warg, keep = W.copy(), W.copy()
    X = seeded(ctx, lambda s: I.simulate_linear_anm(warg, N, kind, arg, seed=s), f'linear {kind}')
    ctx.case(n, kind, N, W.round(3).tolist())
    ctx.event('edges', A.sum())
    ctx.check(np.array_equal(np.array(warg), keep), 'argument-changed', 'weight matrix')
    if not ctx.check(isinstance(X, np.ndarray) and X.shape == (N, n), 'shape', f'{type(X)} {np.shape(X)} != {(N, n)}'):
        return
    eta = X @ W
    if kind in S.NOISE:
        R = X - eta
        for j in range(n):
            S.check_law(ctx, R[:, j], kind, scales[j], 'linear-noise', f'variable {j} (parents {np.flatnonzero(A[:, j])})')
            S.check_indep(ctx, R[1:, j], R[:-1, j], 'noise-not-iid', f'variable {j}, successive records')
            for k in range(n):
                if k < j:
                    S.check_indep(ctx, R[:, j], R[:, k], 'noise-dependent', f'noises {j}, {k}')
                if A[k, j]:
                    S.check_indep(ctx, R[:, j], X[:, k], 'noise-dependent', f'noise of {j}, parent {k}')
    elif kind == 'logistic':
        ctx.check(np.isin(X, [0., 1.]).all(), 'logistic-range', f'{np.unique(X)[:5]}')
        P = 1 / (1 + np.exp(-eta))
        for j in range(n):
            d, v = X[:, j] - P[:, j], P[:, j] * (1 - P[:, j])
            S.zcheck(ctx, d.sum(), v.sum(), 'logistic-calibration', f'variable {j}')
            S.zcheck(ctx, (d * eta[:, j]).sum(), (v * eta[:, j] ** 2).sum(), 'logistic-calibration', f'variable {j}, slope')
            for k in range(n):
                if k != j:
                    S.zcheck(ctx, (d * (X[:, k] - .5) * (A[k, j] > 0)).sum(), (v * .25 * (A[k, j] > 0)).sum(),
                             'logistic-calibration', f'variable {j}, parent {k}')
    else:
        if eta.max() > 6:
            raise Skip()
        ctx.check((X >= 0).all() and (X == np.round(X)).all(), 'poisson-range', f'{np.unique(X)[:5]}')
        M = np.exp(eta)
        for j in range(n):
            d = X[:, j] - M[:, j]
            S.zcheck(ctx, d.sum(), M[:, j].sum(), 'poisson-calibration', f'variable {j}', 8)
            S.zcheck(ctx, (d * eta[:, j]).sum(), (M[:, j] * eta[:, j] ** 2).sum(), 'poisson-calibration',
                     f'variable {j}, slope', 9)
            S.zcheck(ctx, (d ** 2 / M[:, j] - 1).sum(), (2 + 1 / M[:, j]).sum(), 'poisson-calibration',
                     f'variable {j}, dispersion', 12)
    # population form
    if n > 0:
        B = I.simulate_linear_anm(W, None, 'gauss', arg)
        ctx.check(np.shape(B) == (n, n), 'population', f'shape {np.shape(B)}')
        inv = np.linalg.inv(np.eye(n) - W)
        cov = inv.T @ np.diag(np.asarray(scales, float) ** 2) @ inv
        ctx.close(B.T @ B / n, cov, 'population', "X'X/d is not the model covariance", 1e-4, 1e-5 * abs(cov).max())
        ctx.raises(lambda: I.simulate_linear_anm(W, None, 'exp'), 'population', 'non-Gaussian population', ValueError)
    if n > 1:
        i, j = rng.choice(n, 2, replace=False)
        C = W.copy()
        C[i, j], C[j, i] = 1., -.7
        ctx.raises(lambda: I.simulate_linear_anm(C, 50, 'gauss'), 'cycle-accepted', f'{C.tolist()}', ValueError)
        C = W.copy()
        C[i, i] = .5
        ctx.raises(lambda: I.simulate_linear_anm(C, 50, 'gauss'), 'cycle-accepted', f'{C.tolist()}', ValueError)
        ctx.event('refused', 2)
    ctx.raises(lambda: I.simulate_linear_anm(W, 50, 'gauss', [1.] * (n + 1)), 'scale-length', 'n+1 scales', ValueError)


FAMILIES = {'mlp': dict(func_type='mlp'), 'mim': dict(func_type='mim')}


def family_call(rng, fam):
    from cdmir.datasets.simlulators import IIDSimulator as I
    if fam in ('mlp', 'mim'):
        kw = dict(func_type=fam)
        if fam == 'mlp' and rng.random() < .5:
            kw['hidden'] = int(rng.choice([1, 5, 30]))
        return lambda A, N, kind, sc, seed: I.simulate_nonlinear_anm(A, N, kind, sc, seed=seed, **kw), kw
    kw = {}
    linear_ok = rng.random() < .5
    names = ['tanh', 'leaky_relu', 'cos', 'linear'] if linear_ok else ['tanh', 'leaky_relu', 'cos']
    for f in ('func1_type', 'func2_type'):
        if rng.random() < .15:
            continue
        kw[f] = str(rng.choice(names)) if rng.random() < .5 else [str(v) for v in rng.choice(names, int(rng.integers(1, 4)))]
    if rng.random() < .5:
        kw['neg_slope'] = float(rng.choice([.05, .5, 1.]))
    if 'linear' in kw.get('func1_type', '') and 'linear' in kw.get('func2_type', '') and rng.random() < .6:
        kw['hidden'] = int(rng.choice([1, 2, 7]))
    return lambda A, N, kind, sc, seed: I.simulate_pnl(A, N, kind, sc, seed=seed, **kw), kw


@monitor(quick=200, thorough=4000, cpu=60, need={'unchanged': 200, 'changed': 200, 'law_tests': 100, 'edges': 200})
def interventions(ctx):
    """re-running with another noise scale on one variable changes it and its descendants only; additive noise is additive"""
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    A = S.random_dag(rng, n, rng.uniform(.2, .8))
    kind = str(rng.choice(S.NOISE))
    N = 1500
    fam = str(rng.choice(['mlp', 'mim', 'pnl']))
    call, kw = family_call(rng, fam)
    adj = A.copy() if fam == 'pnl' or rng.random() < .5 else A * rng.uniform(-2, 2, A.shape)
    keep = adj.copy()
    base = rng.choice([.5, 1., 2.], n)
    seed = int(rng.integers(1, 2 ** 31 - 1))
    X = call(adj, N, kind, S.scale_arg(rng, base), seed)
    ctx.case(fam, kw, kind, A.tolist(), seed)
    ctx.event('edges', A.sum())
    what = f'{fam} {kw} {kind} A={A.tolist()} scales={base.tolist()} seed={seed}'
    ctx.check(np.array_equal(adj, keep), 'argument-changed', what)
    if not ctx.check(X.shape == (N, n) and np.isfinite(X).all(), 'shape', what):
        return
    np.random.rand(5)
    ctx.check(np.array_equal(X, call(adj, N, kind, S.scale_arg(rng, base), seed)), 'seed', what)
    ctx.check(not np.array_equal(X, call(adj, N, kind, S.scale_arg(rng, base), seed + 1)), 'seed', what + ' other seed')
    for j in range(n):
        if not A[:, j].any():
            S.check_law(ctx, X[:, j], kind, base[j], 'root-noise', f'{what} root {j}')
        ctx.check(len(np.unique(X[:, j])) > N * .9 or fam == 'pnl', 'constant', f'{what}: variable {j}')
        ctx.check(len(np.unique(X[:, j])) > 5, 'constant', f'{what}: variable {j}')
    for k in range(n):
        other = base.copy()
        other[k] = 3.
        Y = call(adj, N, kind, S.scale_arg(rng, other), seed)
        desc = S.descendants(A, k)
        for j in range(n):
            if j not in desc:
                ctx.event('unchanged')
                ctx.check(np.array_equal(X[:, j], Y[:, j]), 'spurious-dependence',
                          f'{what}: variable {j} depends on the noise of {k}, which is not an ancestor')
            elif j == k or A[k, j]:
                ctx.event('changed')
                ctx.check(not np.array_equal(X[:, j], Y[:, j]), 'missing-dependence',
                          f'{what}: variable {j} does not depend on the noise of its parent {k}')
        if fam != 'pnl':
            e = (Y[:, k] - X[:, k]) / (3. - base[k])
            S.check_law(ctx, e, kind, 1., 'additive-noise', f'{what}: variable {k}')
            S.check_indep(ctx, e[1:], e[:-1], 'noise-not-iid', f'{what}: variable {k}')
            f = X[:, k] - base[k] * e
            for p in np.flatnonzero(A[:, k]):
                S.check_indep(ctx, e, X[:, p], 'noise-dependent', f'{what}: noise of {k}, parent {p}')
            if A[:, k].any():
                if fam == 'mim':
                    ctx.check(np.abs(f).max() <= 3 + 1e-9, 'mim-range', f'{what}: variable {k}: {np.abs(f).max()}')
                else:
                    h = kw.get('hidden', 100)
                    ctx.check(np.abs(f).max() <= 2 * h + 1e-9, 'mlp-range', f'{what}: variable {k}: {np.abs(f).max()}')
            else:
                ctx.check(np.abs(f).max() < 1e-8, 'root-noise', f'{what}: root {k} is not pure noise')
    if n > 1:
        i, j = rng.choice(n, 2, replace=False)
        C = A.copy()
        C[i, j] = C[j, i] = 1
        ctx.raises(lambda: call(C, 20, kind, None, 1), 'cycle-accepted', what, ValueError)
    ctx.raises(lambda: call(A, 20, kind, [1.] * (n + 1), 1), 'scale-length', what, ValueError)


@monitor(quick=200, thorough=4000, cpu=60, need={'fitted': 60, 'exact': 40})
def functions(ctx):
    """noise-free variables: the function of the parents is exactly a member of the requested family"""
    from cdmir.datasets.simlulators import IIDSimulator as I
    rng = ctx.rng
    N = 400
    mode = str(rng.choice(['mlp', 'mim', 'pnl1', 'pnl_sum', 'pnl_linear']))
    seed = int(rng.integers(1, 2 ** 31 - 1))
    kind = str(rng.choice(['gauss', 'laplace', 'uniform']))
    r = {'pnl_sum': int(rng.integers(1, 5)), 'pnl_linear': int(rng.integers(1, 5)), 'mlp': int(rng.integers(1, 5))}.get(mode, 1)
    n = r + 1
    perm = rng.permutation(n)
    A = np.zeros((n, n), int)
    j = int(perm[-1])
    pa = perm[:-1]
    A[pa, j] = 1
    scales = np.ones(n) * float(rng.choice([1, 2]))
    scales[j] = 0.
    arg = S.scale_arg(rng, scales)
    what = f'{mode} {kind} parents={pa.tolist()} child={j} scales={scales.tolist()} seed={seed}'
    if mode == 'mlp':
        f = lambda sc: I.simulate_nonlinear_anm(A, N, kind, sc, seed=seed, func_type='mlp', hidden=1)
        X, Z = f(arg), f(np.zeros(n))
        w2 = 2 * Z[0, j]
        ctx.check(np.ptp(Z[:, j]) < 1e-12 and .5 - 1e-9 <= abs(w2) <= 2 + 1e-9, 'mlp-form', f'{what}: f(0)={Z[:3, j]}')
        q = X[:, j] / w2
        ctx.check((q >= 0).all() and (q <= 1).all(), 'mlp-form', f'{what}: outside (0, w2)')
        keep = (q > 1e-4) & (q < 1 - 1e-4)
        if keep.sum() < 50:
            raise Skip()
        logit = np.log(q[keep] / (1 - q[keep]))
        w, *_ = np.linalg.lstsq(X[keep][:, pa], logit, rcond=None)
        ctx.close(X[keep][:, pa] @ w, logit, 'mlp-form', f'{what}: not a one-unit perceptron', 1e-6, 1e-6)
        ctx.check(((abs(w) > .5 - 1e-6) & (abs(w) < 2 + 1e-6)).all(), 'mlp-weights', f'{what}: {w}')
        ctx.event('fitted')
    elif mode == 'mim':
        X = I.simulate_nonlinear_anm(A, N, kind, arg, seed=seed, func_type='mim')
        Z = I.simulate_nonlinear_anm(A, N, kind, np.zeros(n), seed=seed, func_type='mim')
        ctx.close(Z[:, j], np.ones(N), 'mim-form', f'{what}: tanh 0 + cos 0 + sin 0')
        ok, w, e = S.fit_weights(lambda w, x: np.tanh(w[0] * x) + np.cos(w[1] * x) + np.sin(w[2] * x), X[:, pa[0]], X[:, j], 3)
        ctx.check(ok, 'mim-form', f'{what}: no tanh(ax)+cos(bx)+sin(cx) with weights in +-[.5, 2] fits, best error {e}')
        ctx.event('fitted')
    elif mode == 'pnl1':
        f1 = [str(v) for v in rng.choice(['tanh', 'leaky_relu', 'cos', 'linear'], int(rng.integers(1, 4)))]
        f2 = [str(v) for v in rng.choice(['tanh', 'leaky_relu', 'cos', 'linear'], int(rng.integers(1, 4)))]
        nl = (f1 + f2).count('linear')
        if nl > 2:
            raise Skip()
        a1 = f1[0] if len(f1) == 1 and rng.random() < .6 else f1
        a2 = f2[0] if len(f2) == 1 and rng.random() < .6 else f2
        ns = float(rng.choice([.1, .3, 1., 1.7]))
        X = I.simulate_pnl(A, N, kind, arg, seed=seed, func1_type=a1, func2_type=a2, neg_slope=ns)
        if (f1, f2) == (['tanh'], ['leaky_relu']) or rng.random() < .1:       # what the call without them means
            ctx.close(I.simulate_pnl(A, N, kind, arg, seed=seed),
                      I.simulate_pnl(A, N, kind, arg, seed=seed, func1_type='tanh', func2_type='leaky_relu', neg_slope=.2),
                      'pnl-defaults', what, 1e-12, 1e-12)
        ok, w, e = S.fit_weights(lambda w, x: S.compose(f1 + f2, w, ns, x), X[:, pa[0]], X[:, j], nl)
        if not ok and nl == 2:      # a product of two weights is not identified, and ridges can stall the search
            ok2 = False
            for _ in range(6):
                ok2, w, e = S.fit_weights(lambda w, x: S.compose(f1 + f2, w, ns, x), X[:, pa[0]], X[:, j], 2,
                                          tol=1e-3 * (1 + np.ptp(X[:, j])))
                if ok2:
                    break
            ok = ok2
        ctx.check(ok, 'pnl-form', f'{what}: {f1} then {f2}, slope {ns}: best error {e}')
        ctx.event('fitted')
        if nl == 0:
            ctx.event('exact')
    elif mode == 'pnl_sum':
        els = ['tanh', 'leaky_relu', 'cos']
        f1 = [str(v) for v in rng.choice(els, int(rng.integers(1, 4)))]
        f2 = [str(v) for v in rng.choice(els, int(rng.integers(1, 4)))]
        ns = float(rng.choice([.1, .2, .5, 1.5, 3.]))
        X = I.simulate_pnl(A, N, kind, arg, seed=seed, func1_type=f1, func2_type=f2, **({} if ns == .2 else dict(neg_slope=ns)))
        ctx.close(X[:, j], S.compose(f1 + f2, [], ns, X[:, pa]).sum(axis=1), 'pnl-form', f'{what}: {f1} then {f2}', 1e-9, 1e-9)
        ctx.event('exact')
        # slope 1 makes leaky_relu the identity: the child is the sum of its parents' terms and one noise per term
        g1 = str(rng.choice(els))
        sj = float(rng.choice([.5, 1., 2.]))
        scales[j] = sj
        X = I.simulate_pnl(A, 3000, 'gauss', scales, seed=seed, func1_type=g1, func2_type='leaky_relu', neg_slope=1.)
        u = (X[:, j] - S.compose([g1], [], 1., X[:, pa]).sum(axis=1)) / (sj * np.sqrt(r))
        S.check_law(ctx, u, 'gauss', 1., 'pnl-noise', f'{what}: {g1}, identity: one independent noise for each of {r} terms')
        # with noise and one invertible post-function the noise can be recovered
        if r == 1:
            g2 = str(rng.choice(['tanh', 'leaky_relu']))
            X = I.simulate_pnl(A, 1500, kind, .7, seed=seed, func1_type=f1, func2_type=g2, neg_slope=ns)
            v = X[:, j]
            with np.errstate(all='ignore'):
                u = np.arctanh(v) if g2 == 'tanh' else np.where(v > 0, v, v / ns)
            S.check_law(ctx, u - S.compose(f1, [], ns, X[:, pa[0]]), kind, .7, 'pnl-noise', f'{what}: {f1}, {g2}')
            S.check_indep(ctx, u - S.compose(f1, [], ns, X[:, pa[0]]), X[:, pa[0]], 'pnl-noise', f'{what}: {f1}, {g2}')
    else:
        h = None if rng.random() < .3 else int(rng.integers(1, 6))
        wrap = lambda: ['linear'] if rng.random() < .5 else 'linear'
        f1 = wrap() if rng.random() < .7 else ['linear', 'linear']
        f = lambda sc: I.simulate_pnl(A, N, kind, sc, seed=seed, func1_type=f1, func2_type='linear', hidden=h)
        X = f(arg)
        w, *_ = np.linalg.lstsq(X[:, pa], X[:, j], rcond=None)
        ctx.close(X[:, pa] @ w, X[:, j], 'pnl-form', f'{what}: linear then linear, hidden={h}', 1e-7, 1e-7)
        hh = (h or r)
        ctx.check((abs(w) <= hh * 4 * r * (1 if f1 != ['linear', 'linear'] else 2 * hh) + 1e-6).all(), 'pnl-form', f'{what}: {w}')
        ctx.event('exact')
    ctx.case(mode, what)


@monitor(quick=150, thorough=1500, cpu=60, need={'refused': 800})
def refusals(ctx):
    """unknown noise laws and function families, layers that cannot take a hidden size, and scales that are not numbers
    are refused; the same call with valid arguments is served"""
    from cdmir.datasets.simlulators import IIDSimulator as I, TimeLagSimulator as T
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    A = S.random_dag(rng, n, .7)
    L = int(rng.integers(1, 4))
    M = np.array([A * .3] * L)
    bad = str(rng.choice(['cauchy', 'Gauss', '', 'normal']))
    badf = str(rng.choice(['relu', 'gp', 'MLP', '']))
    el = ['tanh', 'leaky_relu', 'cos']
    h = n + 1 + int(rng.integers(0, 4))
    no_lin = [str(v) for v in rng.choice(el, int(rng.integers(1, 3)))]
    a = no_lin[0] if len(no_lin) == 1 and rng.random() < .5 else no_lin
    lin = ['linear', 'tanh'] if rng.random() < .5 else ['tanh', 'linear']
    f1, f2 = [(a, a), (lin, a), (a, lin)][int(rng.integers(3))]
    what = f'n={n} L={L}'
    iid = dict(linear=lambda N=20, k='gauss', sc=None, **kw: I.simulate_linear_anm(A * .5, N, k, sc, 1, **kw),
               nonlinear=lambda N=20, k='gauss', sc=None, **kw: I.simulate_nonlinear_anm(A, N, k, sc, 1, **kw),
               pnl=lambda N=20, k='gauss', sc=None, **kw: I.simulate_pnl(A, N, k, sc, 1, **kw),
               t_linear=lambda N=9, k='gauss', sc=None, **kw: T.simulate_linear_anm(M, L, N, k, sc, 1, **kw),
               t_nonlinear=lambda N=9, k='gauss', sc=None, **kw: T.simulate_nonlinear_anm(M, L, N, k, sc, 1, **kw),
               t_pnl=lambda N=9, k='gauss', sc=None, **kw: T.simulate_pnl(M, L, N, k, sc, 1, **kw))
    for name, f in iid.items():
        x = f()
        ctx.check(x.shape == ((9 + L, n) if name[1] == '_' else (20, n)), 'served', f'{name} {what}')
        ctx.raises(lambda: f(k=bad), f'noise-type/{name}', f'{bad!r} {what}')
        ctx.raises(lambda: f(sc=[1.] * (n - 1) + ['1']), f'scale-type/{name}', what)
        ctx.raises(lambda: f(sc=[1.] * (n - 1)), f'scale-length/{name}', what)
        ctx.event('refused', 3)
        if name in ('nonlinear', 't_nonlinear'):
            ctx.raises(lambda: f(func_type=badf), f'func-type/{name}', f'{badf!r} {what}')
            ctx.raises(lambda: f(k='logistic'), f'noise-type/{name}', what)
            ctx.event('refused', 2)
        if name in ('pnl', 't_pnl'):
            ctx.raises(lambda: f(func1_type=badf), f'func-type/{name}', f'{badf!r} {what}')
            ctx.raises(lambda: f(func2_type=['tanh', badf]), f'func-type/{name}', f'{badf!r} {what}')
            ctx.raises(lambda: f(func1_type=f1, func2_type=f2, hidden=h), f'hidden/{name}', f'{f1} {f2} hidden={h} {what}')
            ctx.raises(lambda: f(hidden=h), f'hidden/{name}', f'default layers hidden={h} {what}')
            x = f(func1_type=['linear', 'tanh'], func2_type=['tanh', 'linear'] if rng.random() < .5 else 'linear', hidden=h)
            ctx.check(np.isfinite(x).all(), 'served', f'{name} hidden={h} {what}')
            ctx.event('refused', 4)
    ctx.case(n, L, A.tolist(), bad, badf, f1, f2, h)


@monitor(quick=10, thorough=120, cpu=200, need={'weights': 150})
def weight_spread(ctx):
    """over many seeds the drawn weights fill their declared range: magnitudes spread over [.5, 2], both signs"""
    from cdmir.datasets.simlulators import IIDSimulator as I
    rng = ctx.rng
    family = ['mlp', 'mim', 'tanh', 'linear', 'mlp'][ctx.index % 5]
    W, W2 = [], []
    for s in rng.integers(1, 2 ** 31 - 1, 50 if family != 'mim' else 32):
        s, two = int(s), family == 'mlp'
        A = np.zeros((2 + two, 2 + two), int)
        A[:-1, -1] = 1
        sc = np.r_[np.ones(1 + two), 0.]
        if family == 'mlp':
            f = lambda v: I.simulate_nonlinear_anm(A, 200, 'uniform', v, seed=s, func_type='mlp', hidden=1)
            X, b = f(sc), 2 * f(sc * 0)[0, -1]
            q = X[:, -1] / b
            W2.append(b)
            W += list(np.linalg.lstsq(X[:, :2], np.log(q / (1 - q)), rcond=None)[0])
        elif family == 'mim':       # two parents, silenced in turn: the mechanism of a seed does not depend on the scales
            A = np.zeros((3, 3), int)
            A[:2, 2] = 1
            fits = []
            for q in (0, 1):
                X = I.simulate_nonlinear_anm(A, 200, 'uniform', np.array([1. - q, float(q), 0.]), seed=s, func_type='mim')
                fits.append(S.fit_weights(lambda w, x: np.tanh(w[0] * x) + np.cos(w[1] * x) + np.sin(w[2] * x), X[:, q], X[:, 2], 3))
            if all(f[0] for f in fits):
                W += [f[1][0] for f in fits]
                W2 += [f[1][2] for f in fits]
        else:
            f1, f2 = ('tanh', 'linear') if family == 'tanh' else ('linear', 'leaky_relu')
            X = I.simulate_pnl(A, 50, 'uniform', sc, seed=s, func1_type=f1, func2_type=f2, neg_slope=1.)
            v = np.tanh(X[:, 0]) if family == 'tanh' else X[:, 0]
            W.append(float(v @ X[:, 1] / (v @ v)))
    ctx.case(ctx.case_seed)
    ctx.event('weights', len(W) + len(W2))
    S.weight_pool(ctx, W, f'{family} inner')
    if W2:
        S.weight_pool(ctx, W2, f'{family} outer')
    if family == 'mim':
        S.sign_pool(ctx, np.array(W) * np.array(W2), 'mim tanh and sin weights')
        for w in (W, W2):
            S.sign_pool(ctx, np.prod(np.reshape(w, (-1, 2)), axis=1), 'mim weights of two parents')
    if family == 'mlp':
        S.sign_pool(ctx, np.prod(np.reshape(W, (-1, 2)), axis=1), 'mlp pairs of inner weights')
        S.sign_pool(ctx, np.array(W2) * np.array(W)[::2], 'mlp inner and outer weights')


@monitor(quick=4, thorough=40, cpu=100, need={'widths': 4})
def width(ctx):
    """the hidden size is the number of inner units: many bounded units reach further than one, one does not"""
    from cdmir.datasets.simlulators import IIDSimulator as I, TimeLagSimulator as T
    A, L = np.array([[0, 1], [0, 0]]), np.array([[[0, 1], [0, 0]]])
    top = {}
    for h in (1, 8):
        m = []
        for s in ctx.rng.integers(1, 2 ** 31 - 1, 30):
            k = dict(seed=int(s), func1_type='linear', func2_type=['linear', 'tanh', 'linear'], hidden=h)
            X = I.simulate_pnl(A, 60, 'uniform', np.array([9., 0]), **k) if ctx.index % 2 == 0 else \
                T.simulate_pnl(L, 1, 60, 'uniform', np.array([9., 0]), **k)[1:]
            m.append(np.abs(X[:, 1]).max())
        top[h] = max(m)
    ctx.case(ctx.case_seed)
    ctx.event('widths')
    ctx.check(top[1] <= 2 + 1e-9, 'pnl-width', f'one unit reaches {top[1]}')
    ctx.check(top[8] > 3, 'pnl-width', f'eight units reach only {top[8]}')


@monitor(quick=30, thorough=400, cpu=60, need={'steep': 15})
def steep_counts(ctx):
    """Poisson and logistic variables with strong weights: mean and spread at every value of the linear predictor"""
    from cdmir.datasets.simlulators import IIDSimulator as I
    rng = ctx.rng
    kind = ['poisson', 'logistic'][ctx.index % 2]
    r = int(rng.integers(1, 4))
    n = r + 1
    perm = rng.permutation(n)
    W = np.zeros((n, n))
    w = rng.uniform(.7, 1.3, r) if kind == 'poisson' else rng.uniform(2, 7, r)
    W[perm[:r], perm[r]] = w * rng.choice([-1, 1], r)
    X = I.simulate_linear_anm(W, 8000, kind, seed=int(rng.integers(2 ** 31)))
    ctx.case(kind, W.round(3).tolist())
    eta, y = (X @ W)[:, perm[r]], X[:, perm[r]]
    m = np.exp(eta) if kind == 'poisson' else 1 / (1 + np.exp(-eta))
    v = m if kind == 'poisson' else m * (1 - m)
    cuts = [-np.inf, -5, -3, -1.5, 0, 1.5, 3, 4, 5, np.inf]
    for lo, hi in zip(cuts, cuts[1:]):
        k = (eta > lo) & (eta <= hi)
        if k.sum() >= 20 and v[k].sum() > 10:
            ctx.event('steep', abs(lo) > 2 and abs(hi) > 2)
            S.zcheck(ctx, (y - m)[k].sum(), v[k].sum(), f'{kind}-steep', f'{W.tolist()}: predictor in ({lo}, {hi}]')
