"""Distribution oracles shared by the simulator checks (all thresholds: false alarm below 1e-9 per test)."""
import numpy as np
from scipy import optimize, stats

NOISE = ['gauss', 'exp', 'gumbel', 'uniform', 'laplace']
P_MIN = 1e-10


def law(kind, scale=1.0):
    scale = float(scale)
    return {'gauss': stats.norm(0, scale), 'exp': stats.expon(0, scale), 'gumbel': stats.gumbel_r(0, scale),
            'uniform': stats.uniform(-scale, 2 * scale), 'laplace': stats.laplace(0, scale)}[kind]


def check_law(ctx, e, kind, scale, mech, what):
    """e is an i.i.d. sample of the declared noise."""
    e = np.asarray(e, dtype=float)
    if scale == 0:
        return ctx.check(np.all(np.abs(e) < 1e-7), mech, f'{what}: zero-scale noise is not zero, max {np.abs(e).max()}')
    if not ctx.check(np.all(np.isfinite(e)), mech, f'{what}: non-finite values'):
        return False
    p = stats.kstest(e, law(kind, scale).cdf).pvalue
    ctx.event('law_tests')
    return ctx.check(p > P_MIN, mech, f'{what}: not {kind} noise of scale {scale}: KS p={p:.3g}, '
                                      f'mean {e.mean():.4g}, sd {e.std():.4g}, n={len(e)}')


def check_indep(ctx, a, b, mech, what):
    """rank correlation of a with b, and of |a - med| with |b - med|"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) < 50 or np.ptp(a) == 0 or np.ptp(b) == 0:
        return
    ctx.event('independence_tests')
    for x, y in ((a, b), (abs(a - np.median(a)), abs(b - np.median(b)))):
        r = stats.spearmanr(x, y)[0]
        z = abs(r) * np.sqrt(len(a) - 1)
        ctx.check(z < 6.8, mech, f'{what}: rank correlation {r:.4f} over {len(a)} records (z={z:.1f})')


def zcheck(ctx, total, var, mech, what, zmax=7.):
    z = abs(total) / np.sqrt(max(var, 1e-12))
    ctx.event('z_tests')
    ctx.check(z < zmax, mech, f'{what}: z={z:.2f}')


def random_dag(rng, n, dens):
    """adjacency of a random DAG whose topological order is not the index order"""
    A = np.triu(rng.random((n, n)) < dens, 1).astype(int)
    p = rng.permutation(n)
    return A[np.ix_(p, p)]


def descendants(A, k):
    n = len(A)
    out, todo = {k}, [k]
    while todo:
        u = todo.pop()
        for v in range(n):
            if A[u, v] and v not in out:
                out.add(v)
                todo.append(v)
    return out


def scale_arg(rng, s):
    """the same noise scales in one of the accepted containers; s: array"""
    k = int(rng.integers(5))
    if k == 0:
        return [float(v) for v in s]
    if k == 2 and all(float(v).is_integer() for v in s):
        return np.array(s, dtype=int)
    if k == 3 and all(float(np.float32(v)) == float(v) for v in s):
        return np.array(s, dtype=np.float32)
    if k == 4 and all(float(v).is_integer() for v in s):
        return [int(v) for v in s]
    return np.array(s, dtype=float)


def compose(kinds, ws, neg_slope, x):
    """scalar composition: kinds applied first to last, one weight per 'linear'"""
    it = iter(ws)
    for k in kinds:
        if k == 'tanh':
            x = np.tanh(x)
        elif k == 'leaky_relu':
            x = np.where(x > 0, x, x * neg_slope)
        elif k == 'cos':
            x = np.cos(x)
        else:
            x = x * next(it)
    return x


def fit_weights(model, x, y, n_w, tol=1e-6, lo=.5, hi=2.):
    """find weights with |w| in [lo, hi] such that model(w, x) == y exactly; (ok, w, error)"""
    if n_w == 0:
        e = np.max(np.abs(model([], x) - y))
        return e < tol, [], e
    g = np.concatenate([np.linspace(lo, hi, {1: 40, 2: 14, 3: 8}[n_w])] * 2)
    g[len(g) // 2:] *= -1
    sub = slice(0, 60)
    grid = np.array(np.meshgrid(*[g] * n_w)).reshape(n_w, -1).T
    sse = np.array([np.sum((model(w, x[sub]) - y[sub]) ** 2) for w in grid])
    best = (np.inf, None)
    for i in np.argsort(sse)[:12]:
        r = optimize.least_squares(lambda w: model(w, x[:300]) - y[:300], grid[i], xtol=1e-15, ftol=1e-15, gtol=1e-15)
        e = np.max(np.abs(model(r.x, x) - y))
        if e < best[0] and np.all(np.abs(r.x) > lo - 1e-6) and np.all(np.abs(r.x) < hi + 1e-6):
            best = (e, r.x)
        if best[0] < tol:
            break
    return best[0] < tol, best[1], best[0]


def weight_pool(ctx, w, tag):
    """weights pooled over many seeds fill +-[.5, 2]: magnitudes uniform there, signs a fair coin"""
    from scipy import stats
    w = np.asarray(w, float)
    p = stats.kstest(np.clip(abs(w), .5, 2), 'uniform', (.5, 1.5)).pvalue
    ctx.check(p > 1e-8, 'weights/spread', lambda: f'{tag}: {len(w)} weights, p={p}, quartiles {np.percentile(abs(w), [0, 25, 50, 75, 100])}')
    sign_pool(ctx, w, tag)


def sign_pool(ctx, w, tag):
    from scipy import stats
    k, n = int((np.asarray(w) > 0).sum()), len(w)
    ctx.check(stats.binomtest(k, n).pvalue > 1e-8, 'weights/sign', f'{tag}: {k} of {n} positive')
