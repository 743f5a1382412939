"""Kernel functions: closed-form values along call histories on shared kernel objects."""
import numpy as np

from vlib.core import monitor

QUICK = 4      # times the quick cases of each monitor
RULE = ('One case = one kernel object and a history of 6-20 calls on related data sets (copies, in-place edits, tiny '
        'perturbations, the same rows in another order, the same border rows with another interior, large and small '
        'arrays, changed parameters); every matrix is compared with the closed form. Distinct = kernel, parameters and '
        'data seed; non-trivial = the history holds two different data sets.')
ASSUMPTIONS = ['finite float data, two-dimensional (records x dimensions)']


def ref_sq(x, y):
    return np.array([((x - r) ** 2).sum(axis=1) for r in y]).T


def variants(rng, X):
    """Data sets that are easy to confuse with X."""
    out = [X.copy()]
    Y = X.copy()
    i = int(rng.integers(X.shape[0]))
    Y[i, int(rng.integers(X.shape[1]))] += float(rng.choice([1e-10, 1e-6, .5, -2.]))
    out.append(Y)
    out.append(X[rng.permutation(X.shape[0])])
    if X.shape[0] > 8:
        Z = X.copy()
        Z[4:-4] = Z[4:-4][rng.permutation(X.shape[0] - 8)]
        out.append(Z)
        W = X.copy()
        W[X.shape[0] // 2] += 3
        out.append(W)
    out.append(-X)
    out.append(X + 1e-9)
    return out


def data(rng, big):
    n = int(rng.choice([1001, 1100, 400])) if big else int(rng.integers(2, 40))
    d = int(rng.integers(1, 4))
    if rng.random() < .4:
        return rng.integers(0, 3, size=(n, d)).astype(float)
    return rng.normal(size=(n, d)) * float(rng.choice([.1, 1, 10]))


@monitor(quick=240, thorough=6000, cpu=120, need={'kernel_values': 1500, 'large': 20, 'edits_in_place': 50})
def history(ctx):
    """Gaussian / linear / polynomial kernels"""
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
    rng = ctx.rng
    kind = ['gauss', 'linear', 'poly'][ctx.index % 3]
    big = ctx.index % 11 == 0
    if kind == 'gauss':
        k = GaussianKernel(width=float(rng.choice([.2, 1., 3.])))
    elif kind == 'linear':
        k = LinearKernel()
    else:
        k = PolynomialKernel(degree=int(rng.integers(1, 4)), const=float(rng.choice([0., 1., 2.5])))
    X = data(rng, big)
    frac = kind == 'poly' and ctx.index % 4 == 2        # roots: bases kept positive
    if frac:
        X = np.abs(X) + .01
    pool = variants(rng, X)
    steps = []
    for s in range(int(rng.integers(6, 20)) if not big else 6):
        if kind == 'gauss' and rng.random() < .25:
            k.width = float(rng.choice([.2, .5, 1., 3.]))
        if kind == 'poly' and rng.random() < .25:
            k.degree, k.const = int(rng.integers(1, 4)), float(rng.choice([0., 1., 2.5]))
        a = pool[int(rng.integers(len(pool)))]
        b = pool[int(rng.integers(len(pool)))]
        if rng.random() < .3:
            b = b[:max(1, b.shape[0] // 2)]
        if rng.random() < .2:
            b = a
        if rng.random() < .2:       # the caller edits its own array between two calls
            i = int(rng.integers(a.shape[0]))
            a[i] += float(rng.choice([1e-9, .7]))
            ctx.event('edits_in_place')
        if frac and (a > 0).all() and (b > 0).all() and rng.random() < .7:
            k.degree = float(rng.choice([.5, 1.5, 2.25]))
        elif frac:
            k.degree = int(rng.integers(1, 4))
        ctx.event('fractional_degree', int(kind == 'poly' and k.degree != int(k.degree)))
        steps.append((a.shape, b.shape))
        ka, kb = a.copy(), b.copy()
        if kind == 'gauss' and rng.random() < .15:
            got, want = k(a, None), np.exp(-.5 * k.width * ref_sq(a, a))
        elif kind == 'gauss':
            got, want = k(a, b), np.exp(-.5 * k.width * ref_sq(a, b))
        elif kind == 'linear':
            got, want = k(a, b), np.array([[np.sum(u * v) for v in b] for u in a]) if not big else np.einsum('ik,jk->ij', a, b)
        else:
            ip = np.array([[np.sum(u * v) for v in b] for u in a]) if not big else np.einsum('ik,jk->ij', a, b)
            got, want = k(a, b), (k.const + ip) ** k.degree
        ctx.event('kernel_values')
        ctx.event('large', int(big))
        if not ctx.close(got, want, f'{kind}/value', lambda: f'call {s}: shapes {a.shape} {b.shape}', rtol=1e-8, atol=1e-9):
            break
        ctx.check((a == ka).all() and (b == kb).all(), f'{kind}/argument-changed', f'call {s}')
    ctx.case(kind, ctx.case_seed, steps[:4])


@monitor(quick=150, thorough=3000, cpu=120, need={'widths': 100})
def widths(ctx):
    """automatic width strategies re-derive the width from the data of every call"""
    from cdmir.utils.kernel import GaussianKernel
    rng = ctx.rng
    E = GaussianKernel.WidthStrategyEnum
    st = [E.median, E.empirical_kci, E.empirical_hsic, E.manual][ctx.index % 4]
    k = GaussianKernel(width=.37, width_strategy=st)
    for _ in range(3):
        n = int(rng.choice([10, 60, 199, 200, 250] + ([1199, 1200] if ctx.index % 10 == 1 or ctx.thorough else [])))
        if st == E.median and n > 1000:
            n = 900
        d = int(rng.integers(1, 4)) if rng.random() < .7 else int(rng.integers(4, 9))
        X = rng.normal(size=(n, d)) * float(rng.choice([.5, 1, 4]))
        if st == E.median:
            dd = np.sqrt(ref_sq(X, X))
            want = 1. / (2 * np.median(dd[dd > 0]) ** 2)
        elif st == E.empirical_kci:
            want = 1. / (1.2 if n < 200 else .7 if n < 1200 else .4) ** 2 / d
        elif st == E.empirical_hsic:
            want = d / (.8 if n < 200 else .5 if n < 1200 else .3) ** 2
        else:
            want = .37
        K = k(X, X)
        ctx.event('widths')
        ctx.close(k.width, want, f'width/{st.name}', f'n={n} d={d}', rtol=1e-6)
        ctx.close(K, np.exp(-.5 * want * ref_sq(X, X)), f'width/{st.name}-matrix', f'n={n} d={d}', rtol=1e-6, atol=1e-9)
        ctx.case(st.name, n, d, ctx.case_seed)


@monitor(quick=12, thorough=120, cpu=120, need={'large_medians': 12})
def large_medians(ctx):
    """above 1000 records the median width is estimated from a subsample: it stays near the median over all records, however
    the records are ordered, and the matrix is the closed form at the width the kernel reports"""
    from cdmir.utils.kernel import GaussianKernel
    rng = ctx.rng
    n = int(rng.integers(1100, 2200))
    d = int(rng.integers(1, 4))
    X = rng.normal(size=(n, d))
    X[:, 0] += 6 * (rng.random(n) < .5)
    if ctx.index % 2:
        X = X[np.argsort(X[:, 0])]                # any stretch of neighbouring records is narrower than the whole
    dd = np.sqrt(ref_sq(X, X))
    want = 1. / (2 * np.median(dd[dd > 0]) ** 2)
    k = GaussianKernel(width_strategy=GaussianKernel.WidthStrategyEnum.median)
    off = []
    for r in range(4):
        K = k(X, X) if r == 0 else k(X, X[:50])
        off.append(float(np.log(k.width / want)))
        ref = np.exp(-.5 * k.width * dd ** 2)
        ctx.close(K, ref if r == 0 else ref[:, :50], 'width/median-large-matrix', f'n={n} d={d}', rtol=1e-6, atol=1e-9)
    # 1000 of n records: the log of the squared median distance has a standard deviation near 0.015 here
    ctx.event('large_medians')
    ctx.check(max(abs(np.array(off))) < .14 and abs(np.mean(off)) < .07, 'width/median-large', f'n={n} d={d}: log ratios {off}')
    ctx.case(n, d, ctx.case_seed)


@monitor(quick=200, thorough=4000, need={'centered': 200})
def centering(ctx):
    """centred matrices equal HKH, regression centring equals R K R; positive semi-definiteness is kept"""
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
    rng = ctx.rng
    k = [GaussianKernel(), LinearKernel(), PolynomialKernel()][ctx.index % 3]
    X = rng.normal(size=(int(rng.integers(2, 30)), int(rng.integers(1, 4))))
    n = X.shape[0]
    K = k(X, X)
    K0 = K.copy()
    H = np.eye(n) - np.ones((n, n)) / n
    C = k.center_kernel_matrix(K)
    ctx.event('centered')
    ctx.close(C, H @ K0 @ H, 'centering/value', f'n={n}', rtol=1e-7, atol=1e-8 * max(1, np.abs(K0).max()))
    ctx.check((K == K0).all(), 'centering/argument-changed', '')
    ctx.check(np.linalg.eigvalsh((C + C.T) / 2).min() > -1e-7 * max(1, np.abs(C).max()), 'centering/not-psd', '')
    eps = float(rng.choice([1e-3, .1, 1.]))
    Z = rng.normal(size=(n, 2))
    Kz = GaussianKernel()(Z, Z)
    R0 = eps * np.linalg.inv(Kz + eps * np.eye(n))
    got, R = k.center_kernel_matrix_regression(K, Kz, eps)
    ctx.close(R, R0, 'regression/matrix', f'n={n} eps={eps}', rtol=1e-5, atol=1e-7)
    ctx.close(got, R0 @ K0 @ R0, 'regression/value', f'n={n} eps={eps}', rtol=1e-4, atol=1e-6 * max(1, np.abs(K0).max()))
    ctx.case(ctx.index % 3, n, eps, ctx.case_seed)
