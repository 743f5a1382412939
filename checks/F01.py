"""ICA-LiNGAM: the estimate against the generating model, its own regressions and its invariances."""
import numpy as np
import pandas as pd
from scipy import stats

from vlib import simtools as S
from vlib.core import monitor

QUICK = 3      # times the quick cases of each monitor
RULE = ('One case = one set of linear non-Gaussian data sets (random DAG in random variable order, 2-5 variables) fitted '
        'with ICA_LINGAM; consistency is judged on every fit, recovery pooled over the data sets of the case. Distinct = '
        'data seeds and sizes; non-trivial = the generating DAG has an edge.')
ASSUMPTIONS = ['FastICA of scikit-learn, its random start repeated by seeding numpy', 'recovery is judged on 1500+ records of '
               'uniform, Laplace or exponential noise with weights 0.6-1.5 and centred data']


def make(rng, d, n, noise, dens=.6, centre=True):
    A = S.random_dag(rng, d, dens).T * rng.uniform(.6, 1.5, (d, d)) * rng.choice([-1, 1], (d, d))
    E = {'uniform': lambda: rng.uniform(-1, 1, (n, d)), 'laplace': lambda: rng.laplace(size=(n, d)),
         'exp': lambda: rng.exponential(size=(n, d))}[noise]()
    X = E @ np.linalg.inv(np.eye(d) - A).T
    return (X - X.mean(0) if centre else X), A


def fit(X, seed, alpha=None, model=None):
    from cdmir.discovery.funtional_based import ICA_LINGAM
    np.random.seed(seed)
    m = model or (ICA_LINGAM() if alpha is None else ICA_LINGAM(wald_alpha=alpha))
    m.fit(X)
    return np.array(m.get_coef(), float), np.array(m.get_causal_graph()), m


def acyclic(H):
    R = np.asarray(H, float)
    for _ in range(len(R)):
        R = R @ (H != 0)
    return not R.any()


def consistent(ctx, X, B, H, tag):
    d = X.shape[1]
    ctx.event('fits')
    if not ctx.check(B.shape == H.shape == (d, d) and np.isfinite(B).all(), 'fit/shape', f'{tag}: {B.shape} {H.shape}'):
        return
    ctx.check(set(np.unique(H)) <= {0, 1} and np.array_equal(H != 0, B != 0), 'fit/graph-of-coefficients',
              lambda: f'{tag}:\n{B}\n{H}')
    ctx.check(acyclic(H), 'fit/acyclic', lambda: f'{tag}:\n{H}')
    Xc = X - X.mean(0)
    for i in range(d):
        pa = np.flatnonzero(H[i])
        ctx.event('regressions')
        if len(pa):
            b = np.linalg.lstsq(Xc[:, pa], Xc[:, i], rcond=None)[0]
            ctx.close(B[i, pa], b, 'fit/regression-on-parents', lambda: f'{tag}: row {i}, parents {pa}', rtol=1e-5, atol=1e-6)


@monitor(40, 400, cpu=300, need=dict(fits=150, regressions=300))
def consistency(ctx):
    """graph = support of the coefficients, acyclic, coefficients = regression on the reported parents; containers,
    refits, seeds, larger levels; argument untouched"""
    rng = ctx.rng
    d = int(rng.integers(2, 6))
    n = int(rng.choice([150, 400, 1000]))
    noise = rng.choice(['uniform', 'laplace', 'exp'])
    X, A = make(rng, d, n, noise, dens=rng.choice([.3, .6, 1.]), centre=rng.random() < .7)
    tag = f'd={d} n={n} {noise}'
    if A.any():
        ctx.case(ctx.case_seed, d, n, str(noise))
    s = int(rng.integers(1 << 30))
    X0 = X.copy()
    B, H, m = fit(X, s)
    consistent(ctx, X, B, H, tag)
    ctx.check(np.array_equal(X, X0), 'fit/data-changed', tag)
    cols = [f'v{k}' for k in rng.permutation(d)]
    df = pd.DataFrame(X, columns=cols, index=rng.permutation(n))
    df0 = df.copy()
    B2, H2, _ = fit(df, s)
    ctx.close(B2, B, 'fit/frame-vs-array', tag)
    ctx.check(df.equals(df0), 'fit/frame-changed', tag)
    # a refit forgets the previous data
    Y, _ = make(rng, int(rng.integers(2, 6)), n, noise)
    _, _, m2 = fit(Y, 1)
    B3, H3, _ = fit(X, s, model=m2)
    ctx.close(B3, B, 'fit/refit', tag)
    ctx.check(np.array_equal(H3, H), 'fit/refit', tag)
    # the level only moves the threshold
    prev = None
    levels = sorted(rng.choice([.001, .01, .05, .1, .3, .5, .7, .9], 3, replace=False)) + [1.]
    for a in levels:
        Ba, Ha, _ = fit(X, s, float(a))
        consistent(ctx, X, Ba, Ha, f'{tag} alpha={a}')
        if prev is not None:
            ctx.check(np.all(prev <= Ha), 'level/monotone', lambda: f'{tag} alpha={a}:\n{prev}\n{Ha}')
        prev = Ha
    ctx.check(prev.sum() == d * (d - 1) // 2, 'level/keep-all', lambda: f'{tag}:\n{prev}')
    B0, H0, _ = fit(X, s, 0.05)
    ctx.close(B0, B, 'level/default', tag)
    # one fitted model is not disturbed by another
    ctx.close(m.get_coef(), B, 'fit/shared-state', tag)


@monitor(4, 16, cpu=60, need=dict(rejections_expected=4))
def unfitted(ctx):
    """results are refused before a fit"""
    from cdmir.discovery.funtional_based import ICA_LINGAM
    ctx.case(ctx.index)
    ctx.raises(lambda: ICA_LINGAM().get_coef(), 'unfitted/coef')
    ctx.raises(lambda: ICA_LINGAM(.1).get_causal_graph(), 'unfitted/graph')


@monitor(24, 160, cpu=600, need=dict(pooled=12))
def recovery(ctx):
    """over 12 easy data sets: the true edges are found in the right direction with the right weights, few others, and the
    complete order (level 1) contains the truth"""
    rng = ctx.rng
    d = 2 + ctx.index % 4
    noise = ['uniform', 'laplace', 'exp'][ctx.index // 4 % 3]
    K = 12
    missed = true = extra = none = bad_order = 0
    errs = []
    for k in range(K):
        n = int(rng.choice([1500, 2500]))
        X, A = make(rng, d, n, noise)
        s = int(rng.integers(1 << 30))
        B, H, _ = fit(X, s)
        consistent(ctx, X, B, H, 'recovery')
        T = A != 0
        missed += int((T & (H == 0)).sum())
        true += int(T.sum())
        off = ~T & ~np.eye(d, dtype=bool)
        extra += int((off & (H != 0)).sum())
        none += d * (d - 1) // 2 - int(T.sum())
        errs += list(abs(B - A)[T & (H != 0)])
        _, H1, _ = fit(X, s, 1.)
        bad_order += bool((T & (H1 == 0)).any())
        if T.any():
            ctx.case(ctx.case_seed, k)
    ctx.event('pooled')
    ctx.event('true_edges', true)
    tag = f'd={d} {noise}: {K} data sets'
    ctx.check(missed <= 4 + .1 * true, 'recovery/missed', f'{tag}: {missed} of {true} true edges missed')
    ctx.check(extra <= 4 + .25 * none, 'recovery/extra', f'{tag}: {extra} false edges on {none} unrelated pairs')
    ctx.check(bad_order <= 4, 'recovery/order', f'{tag}: {bad_order} complete orders contradict the truth')
    if len(errs) > 5:
        ctx.check(np.median(errs) < .12, 'recovery/weights', f'{tag}: median weight error {np.median(errs)}')


@monitor(6, 30, cpu=600, need=dict(shifted=4))
def shift(ctx):
    """adding a constant to a variable does not change the graph"""
    rng = ctx.rng
    X, A = make(rng, 4, 1500, 'uniform', dens=.8)
    c = rng.uniform(10, 40, 4)
    s = int(rng.integers(1 << 30))
    B, H, _ = fit(X, s)
    Bc, Hc, _ = fit(X + c, s)
    consistent(ctx, X + c, Bc, Hc, 'shift')
    ctx.event('shifted')
    ctx.case(ctx.case_seed)
    if not np.array_equal(H, Hc):
        lost = np.all(Hc <= H)
        ctx.fail('wald-shift' if lost else 'shift/other-graph', f'constants {c}:\n{H}\n{Hc}')
    # at level 1 no test decides: the same order and weights must come out
    B1, _, _ = fit(X, s, 1.)
    B2, _, _ = fit(X + c, s, 1.)
    ctx.close(B2, B1, 'shift/regression', 'level 1', rtol=1e-4, atol=1e-5)


@monitor(2, 6, cpu=900, need=dict(null_pairs=150))
def calibration(ctx):
    """the Wald level: share of false edges between independent variables near the level"""
    rng = ctx.rng
    alpha, kept, tot = .2, 0, 0
    for k in range(60):
        X = rng.uniform(-1, 1, (800, 3))
        _, H, _ = fit(X - X.mean(0), k, alpha)
        kept += int(H.sum())
        tot += 3
    ctx.event('null_pairs', tot)
    ctx.case(ctx.case_seed)
    lo, hi = stats.binom.cdf(kept, tot, alpha), stats.binom.sf(kept - 1, tot, 1.6 * alpha)
    if lo < 1e-6:
        ctx.fail('wald-calibration', f'{kept} of {tot} kept at level {alpha}')
    ctx.check(hi > 1e-9, 'calibration/too-many', f'{kept} of {tot} kept at level {alpha}')


def reference_order(X, seed):
    """the complete DAG of the LiNGAM rule on one ICA solution, and how clear-cut its two choices are"""
    import itertools
    from sklearn.decomposition import FastICA
    d = X.shape[1]
    W = np.linalg.pinv(FastICA(n_components=d, random_state=seed).fit(X).mixing_)
    perms = [list(p) for p in itertools.permutations(range(d))]
    c1 = [np.sum(1 / abs(np.diag(W[p]))) for p in perms]
    W = W[perms[int(np.argmin(c1))]]
    B = np.eye(d) - W / np.diag(W)[:, None]
    c2 = [np.sum(np.triu(B[np.ix_(p, p)]) ** 2) for p in perms]
    p = perms[int(np.argmin(c2))]
    H = np.zeros((d, d), int)
    for a in range(d):
        H[p[a], p[:a]] = 1
    s1, s2 = np.sort(c1)[:2], np.sort(c2)[:2]
    return H, s1[1] / s1[0], (s2[1] + 1e-12) / (s2[0] + 1e-12), B, np.sqrt(s2[1])


@monitor(80, 800, cpu=300, need=dict(decided=40, weak=10))
def order(ctx):
    """the complete order (level 1) is the one leaving least energy above the diagonal, for weak and strong effects and
    any number of records, wherever the ICA solution is stable and the choice clear"""
    rng = ctx.rng
    d = int(rng.integers(2, 6))
    n = int(rng.choice([400, 800, 4000]))
    noise = rng.choice(['uniform', 'laplace', 'exp'])
    X, A = make(rng, d, n, noise, dens=rng.choice([.3, .6, 1.]))
    weak = rng.random() < .5
    if weak:
        A = A * rng.uniform(.05, .3, A.shape)
        E = rng.uniform(-1, 1, (n, d)) if noise == 'uniform' else rng.exponential(size=(n, d)) - 1
        X = E @ np.linalg.inv(np.eye(d) - A).T
        X = X - X.mean(0)
    refs = [reference_order(X, k) for k in range(6)]
    if any(not np.array_equal(r[0], refs[0][0]) or r[1] < 1.05 or r[2] < 1.2 or abs(r[3] - refs[0][3]).max() > min(.02, .1 * r[4]) or r[4] < .05
           for r in refs):
        return ctx.event('unclear')
    ctx.case(ctx.case_seed)
    ctx.event('decided')
    if weak:
        ctx.event('weak')
    found = any(np.array_equal(fit(X, int(s), 1.)[1], refs[0][0]) for s in rng.integers(1 << 30, size=6))
    ctx.check(found, 'order/energy', lambda: f'd={d} n={n} {noise} weak={weak}:\n{refs[0][3]}\n{refs[0][0]}')


@monitor(6, 40, cpu=300, need=dict(fits=50))
def small_levels(ctx):
    """levels far below 5 % still decide: pooled over data sets with moderate effects, each stricter level keeps fewer"""
    rng = ctx.rng
    levels = [1e-5, 1e-3, .03, .3]
    kept = np.zeros(len(levels))
    for k in range(16):
        d = 4
        A = S.random_dag(rng, d, .9).T * rng.uniform(.05, .6, (d, d))
        X = (rng.exponential(size=(500, d)) - 1) @ np.linalg.inv(np.eye(d) - A).T
        X = X - X.mean(0)
        s = int(rng.integers(1 << 30))
        for q, a in enumerate(levels):
            kept[q] += fit(X, s, a)[1].sum()
            ctx.event('fits')
    ctx.case(ctx.case_seed)
    ctx.check(np.all(np.diff(kept) >= 3), 'level/small', f'edges kept at {levels}: {kept}')


@monitor(4, 24, cpu=600, need=dict(pooled=2))
def growth(ctx):
    """weak edges (weight .12) that a few hundred records leave undecided are kept at level .01 once there are thousands"""
    rng = ctx.rng
    d, kept, tot = 2 + ctx.index % 2, 0, 0
    A = np.tril(np.full((d, d), .12), -1)
    for k in range(8):
        n = int(rng.integers(7000, 9000))
        p = rng.permutation(d)
        X = (rng.uniform(-1, 1, (n, d)) @ np.linalg.inv(np.eye(d) - A).T)[:, p]
        _, H, _ = fit(X - X.mean(0), int(rng.integers(1 << 30)), .01)
        T = (A != 0)[np.ix_(p, p)]
        kept += int((H.astype(bool) & T).sum())
        tot += int(T.sum())
        ctx.case(ctx.case_seed, k)
    ctx.event('pooled')
    ctx.event(f'kept{kept}of{tot}')
    ctx.check(kept >= .5 * tot, 'level/growth', f'd={d}: {kept} of {tot} weak edges kept at level .01 from 8000 records')
