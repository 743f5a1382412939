"""Kernel scores (cross-validated and marginal likelihood): independent re-derivation, histories, numerical helpers."""
import numpy as np
import pandas as pd
from scipy.optimize import minimize_scalar

from checks.S01 import parents_as, queries
from vlib.core import monitor

QUICK = 4      # times the quick cases of each monitor
RULE = ('One case = one continuous or integer data set, one score class with its parameters (folds, regulariser, '
        'variable-to-column labels) and a history of local-score queries; or one random matrix for the numerical helpers. '
        'Distinct = data seed, class and parameters; non-trivial = a query with a parent, a repeated query and folds of '
        'unequal size in some cases.')
ASSUMPTIONS = ['no constant variable', 'at least two records per fold', 'repeated values are integers',
               'marginal likelihood: the noise level is optimised from .1 with the widths fixed, and may end in any local optimum']


def sq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return ((a[:, None, :] - b[None]) ** 2).sum(-1)


def median_width(a):
    D = sq(a, a)
    u = D[np.triu_indices(len(a), 1)]
    return np.sqrt(.5 * np.median(u[u > 0]))


def centred(K):
    return K - K.mean(0)[None] - K.mean(1)[:, None] + K.mean()


def cols(X, lab, v):
    c = [v] if lab is None else list(np.atleast_1d(lab[v]))
    return X[:, c]


def cv_ref(X, i, pa, lam, k, lab, multi):
    T = len(X)
    f = 3. if multi else 2.
    x = cols(X, lab, i)
    gram = lambda c: np.exp(-sq(c, c) / (2 * (f * median_width(c)) ** 2 * (c.shape[1] if multi else 1)))
    Kx = centred(gram(x))
    Kp = None
    if pa:
        Kp = np.ones((T, T))
        for p in sorted(pa):
            Kp = Kp * gram(cols(X, lab, p))
        Kp = centred(Kp)
    g = .01
    n0 = T // k
    cv = 0.
    for f_ in range(k):
        te = np.arange(f_ * n0, T if f_ == k - 1 else (f_ + 1) * n0)
        tr = np.setdiff1d(np.arange(T), te)
        nv, n1 = len(te), len(tr)
        S, Xte, Xc = Kx[np.ix_(tr, tr)], Kx[np.ix_(te, te)], Kx[np.ix_(te, tr)]
        if pa:
            W = np.linalg.inv(Kp[np.ix_(tr, tr)] + n1 * lam * np.eye(n1))
            B = Kp[np.ix_(tr, te)]
            c = n1 * lam ** 2 / g
            N = Xc - B.T @ W @ S
            M = Xte - 2 * Xc @ W @ B + B.T @ W @ S @ W @ B
            In = np.eye(n1) + c * W @ S @ W
            A = (M - c * N @ W @ np.linalg.solve(In, W @ N.T)) / g
            C = .5 * np.linalg.slogdet(In)[1]
        else:
            In = np.eye(n1) + S / (g * n1)
            A = (Xte - Xc @ np.linalg.solve(In, Xc.T) / (g * n1)) / g
            C = .5 * np.linalg.slogdet(In)[1]
        cv += (nv * nv * np.log(2 * np.pi) + nv * C + np.trace(A)) / 2
    return -cv / k


def marginal_ref(X, i, pa, lab):
    """(value at the initial noise, value at the best noise, tolerance)"""
    T = len(X)
    x = cols(X, lab, i)
    K = centred(np.exp(-sq(x, x) / (2 * (2.5 * median_width(x)) ** 2)))
    w, v = np.linalg.eigh((K + K.T) / 2)
    o = np.argsort(-w)[:min(400, T // 4)]
    w, v = w[o], v[:, o]
    edge = np.any(np.abs(w / w.max() - 1e-5) < 1e-8)
    keep = w > w.max() * 1e-5
    w, v = w[keep], v[:, keep]
    Y = 2 * np.sqrt(T) * v * np.sqrt(w) / np.sqrt(w[0])
    S = np.zeros((T, T))
    for p in sorted(pa):
        c = cols(X, lab, p)
        S = S + sq(c, c) / (2.5 * median_width(c)) ** 2
    l, U = np.linalg.eigh(np.exp(-S / 2))
    l = np.maximum(l, 0)
    z2 = ((U.T @ Y) ** 2).sum(1)
    m = Y.shape[1]

    def nl(t):
        e = l + np.exp(2 * t)
        return .5 * (z2 / e).sum() + .5 * m * np.log(e).sum() + .5 * m * T * np.log(2 * np.pi)

    grid = np.linspace(-9, 6, 600)
    v = [nl(t) for t in grid]
    tops = []  # every local optimum: the line search may end in any of them
    for j in range(len(grid)):
        if v[j] <= min(v[max(j - 1, 0):j + 2]):
            r = minimize_scalar(nl, bounds=(grid[j] - .1, grid[j] + .1), method='bounded', options=dict(xatol=1e-10))
            tops.append(-min(r.fun, v[j]))
    return -nl(np.log(np.sqrt(.1))), tops, edge


def gen(rng, nmax, dmax=5):
    d = int(rng.integers(2, dmax + 1))
    n = int(rng.integers(20, nmax))
    if rng.random() < .3:
        X = rng.integers(0, 6, size=(n, d)).astype(float)
        X[:2] = [[0] * d, [5] * d]
    else:
        X = rng.normal(size=(n, d))
        for j in range(1, d):
            if rng.random() < .7:
                X[:, j] = np.tanh(X[:, int(rng.integers(j))] * 2) + .4 * X[:, j]
        X = X * np.exp(rng.normal(size=d)) + rng.normal(size=d)
    return X


def labelling(rng, d):
    """variable -> column(s): None (default), one column each, or blocks."""
    k = int(rng.integers(3))
    if k == 0 or d < 3:
        return None, d
    perm = [int(j) for j in rng.permutation(d)]
    if k == 1:
        return {v: [c] for v, c in enumerate(perm)}, d
    cut = int(rng.integers(1, d - 1))
    lab = {0: perm[:cut + 1]}
    for v, c in enumerate(perm[cut + 1:], 1):
        lab[v] = [c]
    return lab, len(lab)


def wrap(rng, X):
    return pd.DataFrame(X.copy(), columns=[f'f{j}' for j in range(X.shape[1])]) if rng.random() < .5 else X.copy()


@monitor(quick=120, thorough=2500, cpu=200, need={'queries': 400, 'repeats': 40, 'with_parents': 200, 'blocks': 10})
def cross_validated(ctx):
    """GeneralCVScore / MultiCVScore against a re-derivation of the cross-validated RKHS likelihood"""
    from cdmir.utils.local_score import GeneralCVScore, MultiCVScore
    rng = ctx.rng
    X = gen(rng, 60)
    n, d = X.shape
    multi = bool(rng.random() < .5)
    lab, nv = labelling(rng, d) if multi else (None, d)
    kw = {}
    if rng.random() < .7:
        kw['k_fold'] = int(rng.choice([2, 3, 5, 7, 10]))
    if rng.random() < .6:
        kw['lambda_value'] = float(rng.choice([.01, .05, .3, .002]))
    if lab is not None:
        kw['d_label'] = lab
        ctx.event('blocks', any(len(c) > 1 for c in lab.values()))
    cls = MultiCVScore if multi else GeneralCVScore
    data = wrap(rng, X)
    s, first = cls(data, **kw), {}
    for i, pa in queries(rng, nv, 7, 3):
        got = s(i, parents_as(rng, pa))
        ctx.event('queries')
        ctx.event('with_parents', bool(pa))
        want = cv_ref(X, i, pa, kw.get('lambda_value', .01), kw.get('k_fold', 10), lab, multi)
        if not ctx.close(got, want, f'cv/{cls.__name__}', f'n={n} {kw} i={i} parents={sorted(pa)}', 1e-5, 1e-6):
            break
        if (i, pa) in first:
            ctx.event('repeats')
            ctx.close(got, first[i, pa], 'cv/history', f'i={i} parents={sorted(pa)}', 1e-9, 1e-9)
        first[i, pa] = got
    ctx.check(np.array_equal(np.asarray(data), X), 'data-changed', cls.__name__)
    ctx.case(cls.__name__, ctx.case_seed, n, d, kw)


@monitor(quick=100, thorough=2000, cpu=200, need={'queries': 200, 'repeats': 10, 'with_parents': 100})
def marginal(ctx):
    """marginal-likelihood scores are the exact GP likelihood at a noise level that no nearby one improves on"""
    from cdmir.utils.local_score import GeneralMarginalScore, MultiMarginalScore
    rng = ctx.rng
    X = gen(rng, 60) if ctx.index % 12 else np.concatenate([gen(rng, 60, 2)[:, :2] for _ in range(4)])
    n, d = X.shape
    multi = bool(rng.random() < .5)
    lab, nv = labelling(rng, d) if multi else (None, d)
    kw = {} if lab is None else {'d_label': lab}
    cls = MultiMarginalScore if multi else GeneralMarginalScore
    data = wrap(rng, X)
    s, first = cls(data, **kw), {}
    for i, pa in queries(rng, nv, 5, 3):
        lo, tops, edge = marginal_ref(X, i, pa, lab)
        if edge:
            ctx.event('threshold_ties')
            continue
        order = list(rng.permutation(sorted(pa)).astype(int))
        form = [order, tuple(order), np.array(order, dtype=int)][int(rng.integers(3))]
        got = float(s(i, form))
        ctx.event('queries')
        ctx.event('with_parents', bool(pa))
        hi = min(tops, key=lambda t: abs(t - got))
        ctx.event('several_optima', len(tops) > 1)
        ctx.event('gained', max(tops) - lo > 1)
        ctx.check(abs(got - hi) <= 1e-5 * max(1, abs(hi)), 'marginal/optimum',
                  lambda: f'{cls.__name__} n={n} i={i} parents={order}: {got}, optima {tops}, start {lo}')
        ctx.check(got >= lo - 1e-5 * max(1, abs(lo)), 'marginal/below-start', lambda: f'{got} below {lo}')
        if (i, pa) in first:
            ctx.event('repeats')
            ctx.close(got, first[i, pa], 'marginal/history', f'i={i} parents={sorted(pa)}', 1e-6, 1e-6)
        elif rng.random() < .3:
            ctx.close(float(cls(X.copy(), **kw)(i, sorted(pa))), got, 'marginal/instance',
                      f'i={i} parents={sorted(pa)}', 1e-6, 1e-6)
        first[i, pa] = got
    ctx.check(np.array_equal(np.asarray(data), X), 'data-changed', cls.__name__)
    ctx.case(cls.__name__, ctx.case_seed, n, d, kw)


@monitor(quick=2, thorough=40, cpu=400, need={'cross_validated': 3, 'likelihoods': 3})
def large(ctx):
    """the same references on longer and wider tables with up to five parents, columns in units from 1e-4 to 1e4"""
    from cdmir.utils.local_score import GeneralCVScore, GeneralMarginalScore, MultiCVScore, MultiMarginalScore
    rng = ctx.rng
    X = gen(rng, 100, 3)
    k = ctx.index % 2
    while X.shape[1] < 7 or len(X) < (420 if k else 250):
        Y = gen(rng, 700, 8)
        X = Y if Y.shape[1] >= 7 else X
    X = X[:500 if k else 400]
    n, d = X.shape
    X = X * 10. ** rng.integers(-4, 5, d)
    lab, nv = labelling(rng, d) if rng.random() < .5 else (None, d)
    kw = {} if lab is None else {'d_label': lab}
    i = int(rng.integers(nv))
    pa = rng.permutation([j for j in range(nv) if j != i])[:int(rng.integers(min(2, nv - 1), min(6, nv)))]
    pa = [int(j) for j in pa]
    if k:
        cls = MultiMarginalScore if lab is not None else GeneralMarginalScore
        lo, tops, edge = marginal_ref(X, i, pa, lab)
        got = float(cls(wrap(rng, X), **kw)(i, pa))
        ctx.event('likelihoods')
        if not edge:
            hi = min(tops, key=lambda t: abs(t - got))
            ctx.check(abs(got - hi) <= 1e-5 * max(1, abs(hi)), 'marginal/optimum',
                      lambda: f'{cls.__name__} n={n} i={i} parents={pa}: {got}, optima {tops}, start {lo}')
    else:
        cls = MultiCVScore if lab is not None else GeneralCVScore
        got = cls(wrap(rng, X), **kw)(i, list(pa))
        ctx.event('cross_validated')
        ctx.close(got, cv_ref(X, i, pa, .01, 10, lab, lab is not None), f'cv/{cls.__name__}', f'n={n} i={i} parents={pa}', 1e-5, 1e-6)
    ctx.case(cls.__name__, ctx.case_seed, n, d, len(pa))


@monitor(quick=300, thorough=6000, cpu=60, need={'likelihoods': 50, 'indefinite': 20})
def numerics(ctx):
    """pdinv, dist2, kernel, eigdec, solve_chol, sq_dist, gpr_multi_new and minimize against numpy/scipy"""
    from cdmir.discovery.score_based import dist2 as dist2_ges
    from cdmir.utils.local_score import score_utils as U
    rng = ctx.rng
    n, m, d = int(rng.integers(2, 14)), int(rng.integers(1, 9)), int(rng.integers(1, 5))
    a, b = rng.normal(size=(n, d)) * 3, rng.normal(size=(m, d)) * 3
    want = sq(a, b)
    ctx.close(U.dist2(np.asmatrix(a), np.asmatrix(b)), want, 'dist2', f'{n}x{m}x{d}', 1e-8, 1e-8)
    ctx.close(dist2_ges(a, b), want, 'dist2-ges', f'{n}x{m}x{d}', 1e-8, 1e-8)
    ctx.raises(lambda: U.dist2(np.asmatrix(a), np.asmatrix(np.ones((3, d + 1)))), 'dist2/dimension', 'dist2')
    th = float(np.exp(rng.normal()))
    amp = float(np.exp(rng.normal()))
    ctx.close(U.kernel(np.asmatrix(a), np.asmatrix(b), (th, amp))[0], amp * np.exp(-want * th / 2), 'kernel', '')
    # pdinv: positive definite, then indefinite (svd branch)
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    w = np.exp(rng.normal(size=n))
    ctx.close(U.pdinv(Q @ np.diag(w) @ Q.T), Q @ np.diag(1 / w) @ Q.T, 'pdinv', f'{n}', 1e-6, 1e-7)
    w2 = w * np.where(np.arange(n) % 2 == 0, 1, -1)
    ctx.event('indefinite')
    P = Q @ np.diag(w2) @ Q.T
    ctx.close(U.pdinv(P), Q @ np.diag(1 / w2) @ Q.T, 'pdinv/indefinite', f'{n}', 1e-6, 1e-7)
    k = int(rng.integers(1, n + 1))
    ev, vec = U.eigdec((P + P.T) / 2, k)
    ctx.close(ev, np.sort(w2)[::-1][:k], 'eigdec/values', f'{n} {k}', 1e-7, 1e-8)
    ctx.close(P @ vec, np.asarray(vec) * ev, 'eigdec/vectors', f'{n} {k}', 1e-6, 1e-7)
    ctx.close(U.eigdec((P + P.T) / 2, k, evals_only=True), np.sort(w2)[::-1][:k], 'eigdec/evals-only', f'{n} {k}', 1e-7, 1e-8)
    ctx.raises(lambda: U.eigdec(P, n + 1), 'eigdec/count', 'more components than dimensions')
    R = np.linalg.cholesky(Q @ np.diag(w) @ Q.T).T
    y = rng.normal(size=(n, m))
    ctx.close(U.solve_chol(np.asmatrix(R), np.asmatrix(y)), np.linalg.solve(R.T @ R, y), 'solve_chol', '', 1e-6, 1e-7)
    A, B = np.asmatrix(a.T), np.asmatrix(b.T)
    ctx.close(U.sq_dist(A, B), want, 'sq_dist', '')
    ctx.close(U.sq_dist(A), sq(a, a), 'sq_dist/self', '')
    q = rng.normal(size=(n, m))
    wq = [[(q * (a[:, [c]] - b[:, [c]].T) ** 2).sum()] for c in range(d)]
    ctx.close(U.sq_dist(A, B, q), wq, 'sq_dist/weighted', '')
    # Gaussian process likelihood at arbitrary hyperparameters and its derivative with respect to the noise
    cov = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
    ell, sf, sn = rng.normal(size=d) * .5 + .5, rng.normal() * .3, rng.normal() * .5 - .5
    lt = np.concatenate([ell, [sf, sn]])[:, None]

    def nlml(t):
        K = np.exp(2 * t[d]) * np.exp(-sq(a / np.exp(t[:d]), a / np.exp(t[:d])) / 2) + np.exp(2 * t[d + 1]) * np.eye(n)
        return .5 * np.trace(y.T @ np.linalg.solve(K, y)) + .5 * m * np.linalg.slogdet(K)[1] + .5 * m * n * np.log(2 * np.pi)

    x_, y_ = np.asmatrix(a), np.asmatrix(y)
    f, g = U.gpr_multi_new(lt, cov, x_, y_, nargout=2)
    ctx.event('likelihoods')
    ctx.close(f, nlml(lt[:, 0]), 'gpr/likelihood', f'{n} {m} {d}', 1e-7, 1e-7)
    h = np.zeros(d + 2)
    h[-1] = 1e-5
    num = (nlml(lt[:, 0] + h) - nlml(lt[:, 0] - h)) / 2e-5
    ctx.close(np.asarray(g).ravel()[-1], num, 'gpr/noise-derivative', f'{n} {m} {d}', 1e-4, 1e-4)
    best, fx, it = U.minimize(lt.copy(), 'gpr_multi_new', -60, cov, x_, y_)
    ctx.check(U.gpr_multi_new(best, cov, x_, y_) <= f + 1e-8 * max(1, abs(f)), 'minimize/increased', '')
    ctx.close(np.asarray(best)[:-1], lt[:-1], 'minimize/untouched', 'parameters without a gradient moved')
    ctx.case(n, m, d, ctx.case_seed)
