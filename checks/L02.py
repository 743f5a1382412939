"""Independence and information estimators of the latent-structure learners: HSIC tests, k-NN entropies, GIN, causal order."""
import contextlib
import importlib
import io
import itertools

import numpy as np
import pandas as pd
from scipy import stats
from scipy.spatial.distance import cdist
from scipy.special import digamma, gammaln

from vlib.core import monitor

RULE = ('One case = one random sample (or a pool of 120 samples of one design) run through an estimator, a test or the root '
        'search, compared with an independent formula over the same data or with its null distribution. Distinct = data seed; '
        'non-trivial = at least 10 records, continuous or tied.')
ASSUMPTIONS = ['kernels are supplied by the check (the kernel package the HSIC objects were written for is not installed)',
               'calibration alarms at 1e-9']
PKG = 'cdmir.discovery.funtional_based.LearningHierarchicalStructure.'


def mod(name):
    return importlib.import_module(PKG + name)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Kernel:
    """Gaussian kernel with the interface the HSIC test objects use."""

    def __init__(self, w=1.):
        self.w = w

    def set_width(self, w):
        self.w = w

    def get_sigma_median_heuristic(self, X):
        d = cdist(X, X)
        return np.median(d[d > 0])

    def kernel(self, X, Y=None):
        return np.exp(-cdist(X, X if Y is None else Y, 'sqeuclidean') / 2 / self.w ** 2)

    def rff_generate(self, m, dim=1):
        self.o, self.m = np.random.randn(m // 2, dim), m

    def rff_expand(self, X):
        a = X @ (self.o / self.w).T
        return np.sqrt(2 / self.m) * np.concatenate([np.cos(a), np.sin(a)], 1)


def u_stat(K, L):
    """Unbiased HSIC: average over ordered quadruples of distinct records (closed form over zero-diagonal matrices)."""
    m = len(K)
    K, L = K - np.diag(np.diag(K)), L - np.diag(np.diag(L))
    o = np.ones(m)
    return ((K * L).sum() + (o @ K @ o) * (o @ L @ o) / (m - 1) / (m - 2) - 2 / (m - 2) * o @ K @ L @ o) / m / (m - 3)


def cen(K):
    return K - K.mean(0) - K.mean(1)[:, None] + K.mean()


def sample(rng, lo=10, hi=60):
    n = int(rng.integers(lo, hi))
    X, Y = rng.normal(size=(n, int(rng.integers(1, 3)))), rng.exponential(size=(n, int(rng.integers(1, 3))))
    Y[:, 0] += float(rng.choice([0, .5, 2])) * X[:, 0] ** int(rng.integers(1, 3))
    return X, Y


@monitor(150, 3000, need=dict(statistics=150))
def hsic_statistics(ctx):
    """unbiased and biased HSIC, distance correlation, feature forms, per-coordinate averages, block p-values"""
    rng = ctx.rng
    H, B = mod('indTest.HSICTestObject').HSICTestObject, mod('indTest.HSICBlockTestObject').HSICBlockTestObject
    X, Y = sample(rng)
    n = len(X)
    wx, wy = np.exp(rng.normal(size=2) * .5)
    kx, ky = Kernel(wx), Kernel(wy)
    K, L = kx.kernel(X), ky.kernel(Y)
    ctx.event('statistics')
    ctx.case(ctx.case_seed)
    if ctx.index % 10 == 0:
        # the closed form itself, by brute force over quadruples
        q = 7
        k, l = K[:q, :q], L[:q, :q]
        v = [k[i, j] * (l[i, j] + l[a, b] - 2 * l[i, a]) for i, j, a, b in itertools.permutations(range(q), 4)]
        ctx.close(H.HSIC_U_statistic(k.copy(), l.copy()), np.mean(v), 'hsic/unbiased-definition', '', atol=1e-10)
    ctx.close(H.HSIC_U_statistic(K.copy(), L.copy()), u_stat(K, L), 'hsic/unbiased', f'n={n}', atol=1e-10)
    v = (cen(K) * cen(L)).sum()
    ctx.close(H.HSIC_V_statistic(K.copy(), L.copy()), v, 'hsic/biased', f'n={n}')
    for ub, f in ((True, u_stat), (False, lambda a, b: (cen(a) * cen(b)).sum())):
        den = f(K, K) * f(L, L)
        if den > 1e-12:
            ctx.close(H.dCor_HSIC_statistic(K.copy(), L.copy(), unbiased=ub), f(K, L) / np.sqrt(den), 'hsic/dcor', f'n={n} {ub}',
                      rtol=1e-5)
    P, Q = rng.normal(size=(n, 4)), rng.normal(size=(n, 3)) + X[:, :1]
    fr = lambda a, b: (cen(a @ a.T) * cen(b @ b.T)).sum() / n ** 2
    ctx.close(H.HSIC_V_statistic_rff(P, Q), fr(P, Q), 'hsic/features', f'n={n}')
    ctx.close(H.dCor_HSIC_statistic_rff(P, Q), fr(P, Q) / np.sqrt(fr(P, P) * fr(Q, Q)), 'hsic/features-dcor', f'n={n}')
    t = H(n, kernelX=Kernel(wx), kernelY=Kernel(wy))
    X0, Y0 = X.copy(), Y.copy()
    Kd = [kx.kernel(X[:, [d]]) for d in range(X.shape[1])]
    ctx.close(t.SubHSIC_statistic(X, Y, True), np.mean([u_stat(k, L) for k in Kd]), 'hsic/sub', f'n={n}', atol=1e-10)
    ctx.close(t.SubHSIC_statistic(X, Y, False), np.mean([(cen(k) * cen(L)).sum() for k in Kd]), 'hsic/sub', f'n={n}')
    ctx.close(t.SubdCor_HSIC_statistic(X, Y, False), np.mean([(cen(k) * cen(L)).sum() / np.sqrt((cen(k) ** 2).sum() *
              (cen(L) ** 2).sum()) for k in Kd]), 'hsic/sub-dcor', f'n={n}')
    r = t.HSIC_with_shuffles(X, Y, unbiased=bool(ctx.index % 2), num_shuffles=5)
    ctx.close(r[0], u_stat(K, L) if ctx.index % 2 else v, 'hsic/with-shuffles', f'n={n}', atol=1e-10)
    ctx.check(np.shape(r[1]) == (5,), 'hsic/shuffles', '')
    med = H(n, kernelX=Kernel(), kernelY=Kernel(), kernelX_use_median=True, kernelY_use_median=True)
    mK, mL = Kernel(Kernel().get_sigma_median_heuristic(X)).kernel(X), Kernel(Kernel().get_sigma_median_heuristic(Y)).kernel(Y)
    ctx.close(med.HSIC_with_shuffles(X, Y)[0], u_stat(mK, mL), 'hsic/median-width', f'n={n}', atol=1e-10)
    # block test: mean of block statistics against the declared null variance
    b = int(rng.integers(5, 12))
    nb = int(rng.integers(3, 8))
    x, y = rng.normal(size=(nb * b, 1)), rng.normal(size=(nb * b, 1))
    y += float(rng.choice([0, .7])) * x
    blocks = [(kx.kernel(x[i * b:(i + 1) * b]), ky.kernel(y[i * b:(i + 1) * b])) for i in range(nb)]
    st = np.array([u_stat(*m) for m in blocks])
    for how in ('direct', 'across'):
        var = b ** 2 * st.var() if how == 'across' else \
            2 * np.mean([u_stat(m[0], m[0]) for m in blocks]) * np.mean([u_stat(m[1], m[1]) for m in blocks])
        if var > 1e-12:
            p = B(nb * b, kernelX=Kernel(wx), kernelY=Kernel(wy), blocksize=b, nullvarmethod=how).compute_pvalue(x, y)
            ctx.close(p, stats.norm.sf(np.sqrt(nb * b * b) * st.mean() / np.sqrt(var)), 'hsic/block-' + how, f'b={b} nb={nb}',
                      rtol=1e-4, atol=1e-8)
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'hsic/argument-changed', '')


DESIGNS = [('Permutation', dict(num_shuffles=60), {}), ('Permutation', dict(num_shuffles=60, unbiased=False), {}),
           ('Permutation', dict(num_shuffles=60, unbiased=False, rff=True, num_rfx=20, num_rfy=20), {}),
           ('Spectral', dict(num_nullsims=60), dict(kernelX_use_median=True, kernelY_use_median=True)),
           ('Spectral', dict(num_nullsims=60, rff=True, num_rfx=20, num_rfy=20), {}),
           ('Spectral', dict(num_nullsims=60, induce_set=True, num_inducex=12, num_inducey=12), {}),
           ('Block', dict(blocksize=10), {}), ('Block', dict(blocksize=10, nullvarmethod='direct'), {}),
           ('Block', dict(blocksize=10, nullvarmethod='across'), dict(kernelX_use_median=True, kernelY_use_median=True))]


@monitor(9, 90, cpu=400, need=dict(pools=9))
def hsic_tests(ctx):
    """permutation, spectral and block tests: super-uniform p-values under independence, small ones under dependence"""
    rng = ctx.rng
    name, kw, med = DESIGNS[ctx.index % 9]
    cls = getattr(mod(f'indTest.HSIC{name}TestObject'), f'HSIC{name}TestObject')
    n = 60 if name != 'Block' else 200
    P, D = [], []
    for t in range(150):
        x, y = rng.normal(size=(n, 1)), rng.exponential(size=(n, 1))
        P.append(quiet(cls(n, kernelX=Kernel(), kernelY=Kernel(), **kw, **med).compute_pvalue, x, y))
        if t < 20:
            D.append(quiet(cls(n, kernelX=Kernel(), kernelY=Kernel(), **kw, **med).compute_pvalue, x, x + .5 * rng.normal(size=(n, 1))))
    P = np.array(P, dtype=float)
    ctx.event('pools')
    ctx.case(ctx.case_seed, name)
    ctx.check(np.all((P >= 0) & (P <= 1)), 'tests/range', name)
    for q in (.05, .2, .5):
        # asymptotic null distributions: allow 1.6 times the level
        ctx.check(stats.binom.sf((P <= q).sum() - 1, len(P), min(1, (1 if name == 'Permutation' else 1.6) * q + 1 / 61)) > 1e-9,
                  'tests/level', f'{name} {kw}: {np.mean(P <= q)} of the p-values are at most {q} under independence')
    ctx.check(stats.binom.cdf((P <= .5).sum(), len(P), .25) > 1e-9, 'tests/conservative', f'{name} {kw}: {np.mean(P <= .5)}')
    ctx.check(np.median(D) < .05, 'tests/power', f'{name} {kw}: median p-value {np.median(D)} under strong dependence')


@monitor(2, 8, cpu=400, need=dict(modes=2))
def broken_modes(ctx):
    """recorded: the spectral test with the unbiased statistic, random features with the unbiased statistic"""
    rng = ctx.rng
    S, P = (getattr(mod(f'indTest.HSIC{k}TestObject'), f'HSIC{k}TestObject') for k in ('Spectral', 'Permutation'))
    n = 60
    x = rng.normal(size=(n, 1))
    y = x + .3 * rng.normal(size=(n, 1))
    ctx.event('modes')
    ctx.case(ctx.case_seed)
    p = quiet(S(n, kernelX=Kernel(), kernelY=Kernel(), num_nullsims=60, unbiased=True).compute_pvalue, x, y)
    if p > .1:
        ctx.fail('spectral-unbiased', f'p={p} under strong dependence')
    try:
        p = quiet(P(n, kernelX=Kernel(), kernelY=Kernel(), num_shuffles=60, rff=True, num_rfx=20, num_rfy=20).compute_pvalue, x, y)
        ctx.check(p < .1, 'features-unbiased/power', f'p={p}')
    except AttributeError as e:
        ctx.fail('features-unbiased' if 'HSIC_U_statistic_rff' in str(e) else 'features-unbiased/other', repr(e))


@monitor(120, 2500, cpu=120, need=dict(samples=120))
def gamma_copies(ctx):
    """the two further copies of the gamma-approximated HSIC test and Fisher's combination"""
    rng = ctx.rng
    X, Y = sample(rng, 10, 80)
    n = len(X)
    X0, Y0 = X.copy(), Y.copy()
    al = float(rng.choice([.01, .05, .2]))

    def wid(A):
        D = cdist(A, A, 'sqeuclidean')[np.triu_indices(n, 1)]
        return np.sqrt(.5 * np.median(D[D > 0]))

    K, L = (np.exp(-cdist(A, A, 'sqeuclidean') / 2 / wid(A) ** 2) for A in (X, Y))
    Kc, Lc = cen(K), cen(L)
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    v = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx, my = ((M.sum() - np.trace(M)) / n / (n - 1) for M in (K, L))
    m = (1 + mx * my - mx - my) / n
    thr = stats.gamma.ppf(1 - al, m ** 2 / v, scale=v * n / m)
    ctx.event('samples')
    ctx.case(ctx.case_seed)
    for name, fn in (('HSIC', 'test'), ('indTest.HSIC', 'independent')):
        got = mod(name).hsic_gam(X, Y, al)
        ctx.close([float(np.squeeze(g)) for g in got], [stat, thr], 'gamma/value', f'{name} n={n}', rtol=1e-5, atol=1e-8)
        x, y = X[:, :1], Y[:, :1]
        s, t = (float(np.squeeze(g)) for g in mod(name).hsic_gam(x, y, al))
        if abs(s - t) > 1e-9:
            ctx.check(bool(getattr(mod(name), fn)(x[:, 0], y[:, 0], al)) == (s < t), 'gamma/decision', f'{name} n={n}')
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'gamma/argument-changed', '')
    ps = [float(10 ** rng.uniform(-9, 0)) if rng.random() < .9 else 0. for _ in range(int(rng.integers(1, 7)))]
    want = stats.chi2.sf(-2 * np.sum(np.log([p or 1e-5 for p in ps])), 2 * len(ps))
    d, p = mod('indTest.FisherTest').FisherTest(list(ps), al)
    ctx.close(p, want, 'fisher/value', repr(ps), rtol=1e-6, atol=1e-12)
    if abs(want - al) > 1e-9:
        ctx.check(bool(d) == bool(want > al), 'fisher/decision', f'{ps} {al}')


def knn_entropy(X, k):
    n, d = X.shape
    r = np.sort(cdist(X, X), 1)[:, k]
    ball = d / 2 * np.log(np.pi) - gammaln(d / 2 + 1)
    return d * np.mean(np.log(r + np.finfo(float).eps)) + ball + digamma(n) - digamma(k)


@monitor(150, 3000, cpu=120, need=dict(samples=150))
def information(ctx):
    """k-NN entropy and mutual information, histogram information, Gaussian entropy, the pairwise wrappers"""
    M, rng = mod('mutual'), ctx.rng
    n = int(rng.integers(15, 120))
    k = int(rng.integers(1, 8))
    parts = [rng.normal(size=(n, int(rng.integers(1, 3)))) for _ in range(int(rng.integers(2, 4)))]
    parts[1] = parts[1] + float(rng.choice([0, 1])) * parts[0][:, :1]
    keep = [p.copy() for p in parts]
    ctx.event('samples')
    ctx.case(ctx.case_seed)
    X = parts[0]
    tol = dict(rtol=1e-5, atol=1e-6)
    ctx.close(M.nearest_distances(X, k), np.sort(cdist(X, X), 1)[:, k], 'information/distances', f'n={n} k={k}', **tol)
    ctx.close(M.entropy(X, k), knn_entropy(X, k), 'information/entropy', f'n={n} k={k}', **tol)
    want = sum(knn_entropy(p, k) for p in parts) - knn_entropy(np.hstack(parts), k)
    ctx.close(M.mutual_information(tuple(parts), k), want, 'information/mutual', f'n={n} k={k}', **tol)
    ctx.close(M.mutual_information(parts[::-1], k=k), want, 'information/symmetric', f'n={n} k={k}', **tol)
    ctx.raises(lambda: M.mutual_information((X,), k), 'information/one-variable')
    d = int(rng.integers(1, 5))
    A = rng.normal(size=(d, d))
    C = A @ A.T + np.eye(d)
    ctx.close(M.entropy_gaussian(C), stats.multivariate_normal(cov=C).entropy(), 'information/gaussian', '')
    s = float(rng.uniform(.1, 5))
    ctx.close(M.entropy_gaussian(s), stats.norm(scale=np.sqrt(s)).entropy(), 'information/gaussian', '')
    x, y = parts[0][:, 0], parts[1][:, 0]
    for m in ('independence', 'indTest.independence'):
        want = abs(knn_entropy(x[:, None], 10) + knn_entropy(y[:, None], 10) - knn_entropy(np.stack([x, y], 1), 10))
        ctx.close(quiet(mod(m).independent, x, y), want, 'information/pair', f'{m} n={n}', **tol)
        a, b = rng.integers(0, 4, n), rng.integers(0, 3, n)
        pj = np.zeros((4, 3))
        np.add.at(pj, (a, b), 1. / n)
        pa, pb = pj.sum(1), pj.sum(0)
        H = lambda p: -sum(v * np.log(v) for v in np.ravel(p) if v > 0)
        ctx.close(quiet(mod(m).independent11, a, b), (H(pa) + H(pb) - H(pj)) / ((H(pa) + H(pb)) / 2), 'information/labels', m,
                  rtol=1e-6, atol=1e-9)
    # histogram estimate
    from scipy import ndimage
    sg = float(rng.choice([1, 2]))
    jh = ndimage.gaussian_filter(np.histogram2d(x, y, bins=256)[0], sg, mode='constant') + np.finfo(float).eps
    jh /= jh.sum()
    hx, hy, hj = (-(p * np.log(p)).sum() for p in (jh.sum(1), jh.sum(0), jh))
    ctx.close(M.mutual_information_2d(x, y, sg), hx + hy - hj, 'information/histogram', f'n={n}', **tol)
    ctx.close(M.mutual_information_2d(x, y, sg, True), (hx + hy) / hj - 1, 'information/histogram', f'n={n}', **tol)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(parts, keep)), 'information/argument-changed', '')


def gin_data(rng, n, flip=False):
    u = lambda: rng.uniform(-1, 1, n)
    w = lambda: rng.uniform(.8, 1.6) * rng.choice([-1, 1])
    L1 = u() * 1.7
    L2 = w() * L1 + u()
    X = {f'a{i}': w() * L1 + .4 * u() for i in range(2)}
    X.update({f'b{i}': w() * L2 + .4 * u() for i in range(2)})
    names = list(X)
    o = rng.permutation(len(names))
    return pd.DataFrame({names[i]: X[names[i]] for i in o})


def omega(data, X, Z):
    """Direction orthogonal to cov(Z, X)."""
    C = np.cov(data.to_numpy(), rowvar=False)
    c = list(data.columns)
    A = C[np.ix_([c.index(z) for z in Z], [c.index(x) for x in X])]
    return np.linalg.svd(A)[2][len(X) - 1], A


def ref_gin_mi(data, X, Z):
    w, _ = omega(data, X, Z)
    r = data[X].to_numpy() @ w
    k = 15 if len(data) > 3000 else 10
    return np.mean([abs(knn_entropy(r[:, None], k) + knn_entropy(z[:, None], k) - knn_entropy(np.stack([r, z], 1), k))
                    for z in (data[v].to_numpy() for v in Z)])


@monitor(120, 2000, cpu=200, need={'gin': 120, 'split-levels': 15})
def gin(ctx):
    """the GIN surrogate is orthogonal to the covariance, its verdict is the HSIC verdict on the surrogate; argument forms"""
    from lingam.hsic import hsic_test_gamma
    G, rng = mod('GIN2'), ctx.rng
    data = gin_data(rng, int(rng.integers(40, 200)))
    if rng.random() < .6:
        for i in range(int(rng.integers(1, 4))):
            a, b = (data.iloc[:, int(j)] for j in rng.choice(4, 2, replace=False))
            data.insert(int(rng.integers(data.shape[1] + 1)), f'q{i}', (a + rng.normal() * b) ** 2 + rng.uniform(-1, 1, len(data)))
    cols = list(data.columns)
    keep = data.copy()
    sel = [cols[int(i)] for i in rng.permutation(len(cols))]
    k = int(rng.integers(1, 3)) if len(cols) == 4 else int(rng.integers(1, len(cols) - 1))
    X = sel[:k + 1]
    Z = sel[k + 1:2 * k + 1] if len(cols) == 4 else sel[k + 1:]
    ctx.event('gin')
    ctx.case(ctx.case_seed)
    w = G.getomega(data, list(X), list(Z))
    w0, A = omega(data, X, Z)
    sv = np.zeros(len(X))
    sv[:min(A.shape)] = np.linalg.svd(A)[1]
    ctx.check(np.shape(w) == (1, len(X)), 'gin/shape', repr(np.shape(w)))
    if np.shape(w) == (1, len(X)):
        ctx.close(np.linalg.norm(w), 1, 'gin/unit', f'{X} {Z}')
        ctx.check(np.linalg.norm(A @ w[0]) <= sv[-1] + 1e-9 * (1 + sv[0]), 'gin/orthogonal',
                  lambda: f'{X} {Z}: |cov w| = {np.linalg.norm(A @ w[0])}, the least is {sv[-1]}')
    if sv[-2] - sv[-1] < 1e-6 * sv[0]:
        return  # more than one such direction
    r = data[X].to_numpy() @ w0
    ps = [hsic_test_gamma(r[:, None], data[z].to_numpy())[1] for z in Z]
    al = float(rng.choice([.01, .05, .3]))
    if len(ps) > 1 and rng.random() < .6:
        i = int(rng.integers(len(ps) - 1))
        al = float(np.sqrt(np.prod(np.maximum(sorted(ps)[i:i + 2], 1e-12))))  # between two of the p-values
        ctx.event('split-levels')
    if min(abs(np.array(ps) - al)) > 1e-7:
        ctx.check(bool(quiet(G.GIN, list(X), list(Z), data, al)) == (min(ps) > al), 'gin/verdict', f'{X} {Z}: p {ps} alpha {al}')
    got = quiet(G.GIN_MI, list(X), list(Z), data, '1')
    ctx.close(got, ref_gin_mi(data, X, Z), 'gin/information', f'{X} {Z}', rtol=1e-4, atol=1e-5)
    ctx.check(data.equals(keep), 'gin/data-changed', '')


@monitor(40, 400, cpu=300, need=dict(orders=40))
def order(ctx):
    """the causal order takes, step by step, the cluster whose generalised independent noise is least informative"""
    I, rng = mod('Infer_Causal_Order'), ctx.rng
    n = int(rng.integers(60, 200))
    data = gin_data(rng, n)
    if rng.random() < .5:
        for i in range(2):
            data[f'c{i}'] = rng.uniform(-1, 1, n) + data['b0'] * .5
    for g, base in zip('abc', ('a0', 'b0', 'c0')):
        if base in data and rng.random() < .5:
            for i in range(2, int(rng.integers(3, 6))):
                data[f'{g}{i}'] = rng.uniform(-1, 1, n) * .5 + data[base] * rng.uniform(.5, 1.5)
    for g in 'de'[:int(rng.choice([0, 0, 1, 2]))]:
        base = rng.exponential(size=n) + .4 * data[str(rng.choice(list(data.columns)))]
        for i in range(int(rng.integers(2, 5))):
            data[f'{g}{i}'] = base * rng.uniform(.5, 1.5) + rng.uniform(-1, 1, n) * .3
    groups = {}
    for v in data.columns:
        groups.setdefault(v[0], []).append(v)
    clusters = list(groups.values())
    cut = int(rng.integers(0, len(clusters) + 1))
    cl = {'1': [list(c) for c in clusters[:cut]], '2': [list(c) for c in clusters[cut:]]}
    keep = data.copy()
    got = quiet(I.LearnCausalOrder, cl, data)
    ctx.event('orders')
    ctx.case(ctx.case_seed)
    ctx.check(sorted(map(sorted, got)) == sorted(map(sorted, clusters)), 'order/permutation', f'{got}')
    left, K = [list(c) for c in clusters], []
    for step in got:
        if len(left) > 1 and step in left:
            cost = []
            for c in left:
                tot = 0
                for o in left:
                    if o is c:
                        continue
                    h = (len(c) + 1) // 2
                    X, Z = c[:h] + o[:(len(o) + 1) // 2], c[h:]
                    for q in K:
                        X, Z = X + q[:len(q) // 2], Z + q[len(q) // 2:]
                    tot += ref_gin_mi(data, X, Z)
                cost.append(tot)
            s = sorted(cost)
            if s[1] - s[0] > 1e-6:
                ctx.event('steps')
                ctx.check(cost[left.index(step)] == s[0], 'order/root', lambda: f'{left} known {K}: took {step}, costs {cost}')
        if step in left:
            left.remove(step)
        K.append(step)
    ctx.check(data.equals(keep), 'order/data-changed', '')


@monitor(4, 16, cpu=400, need=dict(pools=4))
def root(ctx):
    """two latents in a chain, uniform noise: the cause is put first in most of 10 samples, GIN holds for the right split"""
    I, G, rng = mod('Infer_Causal_Order'), mod('GIN2'), ctx.rng
    good = holds = wrong = 0
    for _ in range(10):
        data = gin_data(rng, 600)
        got = quiet(I.LearnCausalOrder, {'1': [['b0', 'b1'], ['a0', 'a1']]}, data)
        good += got[0] == ['a0', 'a1']
        holds += bool(quiet(G.GIN, ['a0', 'b0'], ['a1'], data, .01))
        wrong += bool(quiet(G.GIN, ['a0', 'b0'], ['b1'], data, .01))
    ctx.event('pools')
    ctx.event(f'root{good}')
    ctx.event(f'holds{holds}')
    ctx.event(f'wrong{wrong}')
    ctx.case(ctx.case_seed)
    ctx.check(good >= 6, 'root/first', f'the cause came first in {good} of 10 samples')
    ctx.check(holds >= 6, 'root/gin-holds', f'{holds} of 10')
    ctx.check(wrong <= 7, 'root/gin-fails', f'{wrong} of 10')
