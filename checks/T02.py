"""Kernel-based independence tests: reference statistics and p-values, query-history and instance independence."""
import numpy as np
from scipy.stats import gamma

from vlib import graphs as G
from vlib.core import monitor

QUICK = 2      # times the quick cases of each monitor
RULE = ('One case = one data set (continuous, discrete, multi-column blocks, constant columns, reordered or lightly '
        'edited copies of another case) and a history of KCI / HSIC calls through one or several test objects sharing '
        'kernels; each answer is compared with a reference written from the published formulas. Distinct = data seed and '
        'query list; non-trivial = a repeated query or a second object in the history.')
ASSUMPTIONS = ['at least 10 records; Gaussian-process widths are re-fitted by the same sklearn optimiser',
               'exact-mode p-values are compared within Monte-Carlo error (5.5 standard errors)']


def z1(A):
    A = np.asarray(A, dtype=float)
    s = A.std(axis=0, ddof=1)
    with np.errstate(all='ignore'):
        out = (A - A.mean(axis=0)) / s
    # a column that is constant up to rounding has no defined direction
    out[:, s <= 1e-12 * (1 + np.abs(A).max(axis=0))] = 0.
    return out


def sq(A, B):
    return ((A[:, None, :] - B[None, :, :]) ** 2).sum(-1)


def gk(A, w=1.):
    return np.exp(-.5 * w * sq(A, A))


def lk(A):
    return A @ A.T


def cen(K):
    H = np.eye(len(K)) - 1. / len(K)
    return H @ K @ H


def gam(mean, var, stat):
    return gamma.sf(stat, mean ** 2 / var, scale=var / mean)


def ref_uncond(X, Y, kx=gk, ky=gk):
    Kx, Ky = cen(kx(z1(X))), cen(ky(z1(Y)))
    n = len(Kx)
    stat = (Kx * Ky).sum()
    return gam(np.trace(Kx) * np.trace(Ky) / n, 2 * (Kx ** 2).sum() * (Ky ** 2).sum() / n ** 2, stat), stat, Kx, Ky


def trunc(K, thr):
    w, v = np.linalg.eigh((K + K.T) / 2)
    k = w > w.max() * thr
    return (v[:, k] * w[k]) @ v[:, k].T


def ref_cond(X, Y, Z, kx=gk, ky=gk, kz=gk, eps=1e-3, thr=1e-5, wx=1., gauss=True, epsy=None):
    x, y, z = z1(X), z1(Y), z1(Z)
    x = np.concatenate([x, .5 * z], axis=1)
    Kx, Ky = cen(kx(x)), cen(ky(y))
    n = len(Kx)
    if kz is not None:
        Kzx = Kzy = cen(kz(z))
        ex, ey = eps, eps if epsy is None else epsy
    else:
        (Kzx, ex), (Kzy, ey) = (gp_width(K, z, x.shape[1], thr, wx, gauss) for K in (Kx, Ky))
    Rx, Ry = (e * np.linalg.pinv(Kz + e * np.eye(n)) for Kz, e in ((Kzx, ex), (Kzy, ey)))
    A, B = Rx @ Kx @ Rx, Ry @ Ky @ Ry
    stat = (A * B).sum()
    Hd = trunc(A, thr) * trunc(B, thr)
    return gam(np.trace(Hd), 2 * np.trace(Hd @ Hd), stat), stat, Hd


def gp_width(K, z, dx, thr, wx, gauss):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import ConstantKernel, RBF, WhiteKernel
    n = len(K)
    w, v = np.linalg.eigh((K + K.T) / 2)
    o = np.argsort(-w)[:int(min(400, n // 4))]
    w, v = w[o], v[:, o]
    k = w > w.max() * thr
    w, v = w[k], v[:, k]
    v = 2 * np.sqrt(n) * v * np.sqrt(w) / np.sqrt(w[0])
    wz = np.sqrt(1. / (wx * dx)) if gauss else 1.
    kern = ConstantKernel(1., (1e-3, 1e3)) * RBF(wz * np.ones(z.shape[1]), (1e-2, 1e2)) + WhiteKernel(.1, (1e-10, 1e1))
    g = GaussianProcessRegressor(kernel=kern).fit(z, v)
    return g.kernel_.k1(z, z), float(np.exp(g.kernel_.theta[-1]))


def gen(rng, n, d):
    X = rng.normal(size=(n, d))
    for j in range(1, d):
        if rng.random() < .6:
            X[:, j] += rng.normal() * X[:, j - 1] + (np.sin(2 * X[:, 0]) if rng.random() < .4 else 0)
    k = int(rng.integers(4))
    if k == 0:
        X = np.round(X)
    elif k == 1:
        X[:, int(rng.integers(d))] = float(rng.integers(-2, 3))
    elif k == 2:
        X = (X > 0).astype(float)
    return X


def ids(rng, d, k):
    return [int(i) for i in rng.choice(d, k, replace=False)]


def pclose(ctx, got, want, mech, tag, ptol=1e-6, stol=1e-6):
    ctx.event('answers')
    p, s = got
    p, s = float(np.asarray(p).reshape(())), float(np.asarray(s).reshape(()))
    ok = (abs(p - want[0]) <= ptol or (np.isnan(p) and np.isnan(want[0]))) and abs(s - want[1]) <= stol * (1 + abs(want[1]))
    return ctx.check(ok and (np.isnan(p) or 0 <= p <= 1), mech,
                     lambda: f'{tag}: answered p={p!r} stat={s!r}, reference p={want[0]!r} stat={want[1]!r}')


def call_form(rng, names, xs):
    """The same variables as list of ints, ndarray, name list, or a scalar."""
    k = int(rng.integers(4))
    if k == 1:
        return np.array(xs)
    if k == 2:
        return [names[i] for i in xs]
    if k == 3 and len(xs) == 1:
        return xs[0] if rng.random() < .5 else names[xs[0]]
    return list(xs)


@monitor(quick=160, thorough=4000, cpu=120, need={'answers': 700, 'conditional': 100, 'second_object': 60})
def kci_history(ctx):
    """gamma-approximated KCI (unconditional; conditional with a given z-kernel) over histories on shared kernels"""
    import pandas as pd
    from cdmir.utils.independence import KCI
    from cdmir.utils.kernel import GaussianKernel, LinearKernel
    rng = ctx.rng
    n, d = int(rng.integers(10, 60)), int(rng.integers(3, 6))
    if ctx.index % 16 == 0:
        n = 1010
    X = gen(rng, n, d)
    mode = int(rng.integers(3))
    eps = float(rng.choice([1e-3, 1e-2]))
    wx, wy = 1., 1.
    kz, kzr = None, None
    if mode == 0:
        kw, kxr, kyr = {}, gk, gk
    elif mode == 1:
        wx, wy = float(rng.choice([.3, 1., 2.])), float(rng.choice([.5, 1.]))
        kw = dict(kernel_x=GaussianKernel(wx), kernel_y=GaussianKernel(wy))
        kxr, kyr = lambda A: gk(A, wx), lambda A: gk(A, wy)
    else:
        kw = dict(kernel_x=GaussianKernel(wx), kernel_y=LinearKernel())
        kxr, kyr = gk, lk
    kzr = gk
    extra, epsy = {} if eps == 1e-3 else dict(epsilon_x=eps, epsilon_y=eps), eps
    if ctx.index % 3 == 1:                      # one or both given, different
        epsy = float(rng.choice([1e-3, .05, .3]))
        extra = dict(epsilon_x=eps) if epsy == 1e-3 else dict(epsilon_y=epsy) if eps == 1e-3 else dict(epsilon_x=eps, epsilon_y=epsy)
        ctx.event('different_epsilons', int(eps != epsy))
    kzo = GaussianKernel()
    datas = [X]
    Y = X.copy()
    Y[4:-4] = Y[4:-4][rng.permutation(n - 8)]
    datas.append(Y)
    Y = X.copy()
    for j in range(d):
        Y[3:-3, j] = Y[3:-3, j][rng.permutation(n - 6)]
    datas.append(Y)
    objs = []
    hist = []
    for step in range(6 if n < 1000 else 3):
        if not objs or rng.random() < .4:
            W = datas[int(rng.integers(3))]
            df = rng.random() < .5
            names = [f'v{i}' for i in range(d)] if df else [f'x{i}' for i in range(d)]
            arg = pd.DataFrame(W, columns=names) if df else W
            objs.append((KCI(arg, kernel_z=kzo, **kw, **extra), W, names))
            ctx.event('second_object', int(len(objs) > 1))
        t, W, names = objs[int(rng.integers(len(objs)))]
        if hist and rng.random() < .4:
            xs, ys, zs = hist[int(rng.integers(len(hist)))]
        else:
            perm = ids(rng, d, d)
            a = int(rng.integers(1, 3)) if d > 3 else 1
            b = 2 if d > a + 2 and rng.random() < .3 else 1
            xs, ys = perm[:a], perm[a:a + b]
            zs = perm[a + b:a + b + int(rng.integers(0, d - a - b + 1))] if n < 1000 else []
        hist.append((xs, ys, zs))
        keep = W.copy()
        args = [call_form(rng, names, xs), call_form(rng, names, ys)]
        if zs:
            got = t(*args, call_form(rng, names, zs))
            want = ref_cond(W[:, xs], W[:, ys], W[:, zs], kxr, kyr, kzr, eps, epsy=epsy)
            ctx.event('conditional')
        else:
            got = t(*args, [None, []][int(rng.integers(2))]) if rng.random() < .5 else t(*args)
            want = ref_uncond(W[:, xs], W[:, ys], kxr, kyr)
        degenerate = not np.isfinite(want[0]) or want[1] < 1e-9
        tag = f'n={n} d={d} kernels {mode} eps={eps},{epsy} step {step} query {(xs, ys, zs)}'
        if degenerate:
            ctx.event('degenerate_skipped')
        elif not pclose(ctx, got, want, 'kci/conditional' if zs else 'kci/unconditional', tag,
                        1e-4 if zs else 1e-6, 1e-4 if zs else 1e-6):
            break
        ctx.check(((W == keep) | np.isnan(W)).all(), 'kci/data-changed', tag)
    ctx.case(ctx.case_seed, n, d, mode, hist)


@monitor(quick=24, thorough=300, cpu=200, need={'answers': 24})
def kci_gp(ctx):
    """conditional KCI with Gaussian-process widths; asked twice, the second answer is the first"""
    from cdmir.utils.independence import KCI
    rng = ctx.rng
    n, d = int(rng.integers(20, 60)), int(rng.integers(3, 5))
    if ctx.index % 12 == 3:
        n, d = int(rng.integers(180, 220)), 4     # more eigenvectors than a small sample has
    X = rng.normal(size=(n, d))
    X[:, 1] += X[:, 2]
    X[:, 0] += X[:, 2] + (X[:, 1] if ctx.index % 2 else 0)
    t = KCI(X)
    zs = list(range(2, d))
    got = t([0], [1], zs)
    want = ref_cond(X[:, [0]], X[:, [1]], X[:, zs], kz=None)
    pclose(ctx, got, want, 'kci/gp', f'n={n} d={d}', 5e-3, 5e-3)
    ctx.check(tuple(t([0], [1], zs)) == tuple(got), 'kci/gp-repeat', '')
    other = KCI(X)([0], [1], zs)
    ctx.close(other, got, 'kci/gp-instances', 'a second object on the same data', rtol=1e-5, atol=1e-7)
    ctx.case(ctx.case_seed, n, d)


@monitor(quick=24, thorough=200, cpu=200, need={'answers': 40})
def kci_exact(ctx):
    """exact mode: the p-value is the tail of the spectral null distribution (Monte-Carlo error only)"""
    from cdmir.utils.independence import KCI
    from cdmir.utils.kernel import GaussianKernel
    rng = ctx.rng
    n = int(rng.integers(15, 60))
    w = 1.
    if ctx.index in (0, 1):
        n, w = 1002, [1., 600.][ctx.index]         # a narrow kernel has many eigenvalues that matter
    X = rng.normal(size=(n, 3))
    c = float(rng.choice([0, .3, .6])) if ctx.index != 1 else 0.
    X[:, 1] += c * X[:, 0]
    m = (40000 if n < 36 else 2000) if n < 1000 else 300
    t = KCI(X, GaussianKernel(w), GaussianKernel(w), kernel_z=GaussianKernel(), approximate_mode=False,
            null_distribution_sample_size=m)

    def mc(eigs, stat):
        big = max(m, 20000) if n < 1000 else 3000
        eigs = eigs[eigs > eigs.max() * 1e-6]
        r = np.random.default_rng(ctx.case_seed)
        tot = np.zeros(big)
        for k in range(0, len(eigs), 200):
            tot += eigs[k:k + 200] @ r.chisquare(1, (len(eigs[k:k + 200]), big))
        return (tot > stat).mean(), big

    _, stat, Kx, Ky = ref_uncond(X[:, [0]], X[:, [1]], lambda A: gk(A, w), lambda A: gk(A, w))
    lx, ly = np.linalg.eigvalsh(Kx), np.linalg.eigvalsh(Ky)
    want, big = mc(np.outer(lx, ly).ravel() / n, stat)
    p, s = t([0], [1])
    se = np.sqrt(max(want * (1 - want), 1. / m) * (1. / m + 1. / big)) + 1. / m
    ctx.event('answers')
    ctx.check(abs(p - want) <= 5.5 * se and abs(s - stat) < 1e-6 * (1 + stat), 'kci/exact-unconditional',
              f'n={n}: p={p} stat={s}; reference {want} (se {se}) {stat}')
    ctx.check(tuple(t([0], [1])) == (p, s), 'kci/exact-repeat', 'a repeated query drew a new null sample')
    if n < 1000:
        _, stat, Hd = ref_cond(X[:, [0]], X[:, [1]], X[:, [2]])
        want, big = mc(np.linalg.eigvalsh((Hd + Hd.T) / 2), stat)
        p, s = t([0], [1], [2])
        ctx.event('answers')
        ctx.check(abs(p - want) <= 5.5 * (np.sqrt(max(want * (1 - want), 1. / m) * (1. / m + 1. / big)) + 1. / m) and
                  abs(s - stat) < 1e-4 * (1 + stat), 'kci/exact-conditional', f'n={n}: p={p} stat={s}; {want} {stat}')
    ctx.case(ctx.case_seed, n, c)


@monitor(quick=200, thorough=4000, cpu=120, need={'answers': 600})
def hsic_functional(ctx):
    """functional KCI and hsic_gam: reference values; symmetric; invariant under reordering the records"""
    from cdmir.utils.independence.functional import KCI as FKCI
    from cdmir.utils.independence.functional.HSIC import hsic_gam, test
    rng = ctx.rng
    n = int(rng.integers(10, 80))
    X = rng.normal(size=(n, int(rng.integers(1, 3))))
    Y = rng.normal(size=(n, int(rng.integers(1, 3))))
    c = float(rng.choice([0, .5, 2]))
    Y[:, 0] += c * X[:, 0] ** int(rng.integers(1, 3))
    if rng.random() < .3:
        X = np.round(X * 3)
    if len(np.unique(X[:, 0])) < 3:
        return
    kx, ky = X.copy(), Y.copy()
    want = ref_uncond(X, Y)
    t = FKCI()
    pclose(ctx, t.test(X, Y), want, 'fkci/value', f'n={n}')
    pclose(ctx, t.test(Y, X), want, 'fkci/symmetry', f'n={n}')
    o = rng.permutation(n)
    pclose(ctx, t.test(X[o], Y[o]), want, 'fkci/record-order', f'n={n}')
    al = float(rng.choice([.01, .05, .2]))

    def wid(A):
        D = sq(A, A)[np.triu_indices(n, 1)]
        return np.sqrt(.5 * np.median(D[D > 0]))

    K, L = (np.exp(-sq(A, A) / 2 / wid(A) ** 2) for A in (X, Y))
    Kc, Lc = cen(K), cen(L)
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    v = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx, my = ((M.sum() - np.trace(M)) / n / (n - 1) for M in (K, L))
    m = (1 + mx * my - mx - my) / n
    thr = gamma.ppf(1 - al, m ** 2 / v, scale=v * n / m)
    got = hsic_gam(X, Y, al)
    ctx.event('answers')
    ctx.close([float(np.squeeze(got[0])), float(np.squeeze(got[1]))], [stat, thr], 'hsic/value', f'n={n} alpha={al}',
              rtol=1e-5, atol=1e-8)
    if X.shape[1] == Y.shape[1] == 1 and abs(stat - thr) > 1e-6:
        ctx.check(test(X[:, 0], Y[:, 0], al) is bool(stat < thr), 'hsic/decision', f'n={n} {stat} {thr}')
    ctx.check((X == kx).all() and (Y == ky).all(), 'hsic/argument-changed', '')
    ctx.case(ctx.case_seed, n, c, al)
