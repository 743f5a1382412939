"""Latent hierarchy learning: tetrad tests, cluster rules, bookkeeping and recovery of measurement clusters."""
import contextlib
import importlib
import io
import itertools

import numpy as np
import pandas as pd
from scipy.stats import kstest, norm

from vlib.core import Skip, monitor

RULE = ('One case = one quadruple, cluster list, data frame with a prescribed covariance (the sample covariance equals the '
        'covariance of a random latent model exactly) or random data, run through the tetrad tests, one learning step or the '
        'whole algorithm. Distinct = data seed and model; non-trivial = at least four variables with correlations.')
ASSUMPTIONS = ['no test is decided at a p-value within 1e-9 of alpha', 'drawing of the final graph is replaced (needs graphviz)',
               'recovery: every latent variable has three or more measured children and the false tetrads are clear']
PKG = 'cdmir.discovery.funtional_based.LearningHierarchicalStructure.'


def mod(name):
    return importlib.import_module(PKG + name)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def ref_p(S, n, i, j, k, l):
    """Wishart test of the tetrad s_ik s_jl - s_il s_jk."""
    q = [i, j, k, l]
    C = S[np.ix_(q, q)]
    v = (n + 1) / ((n - 1) * (n - 2)) * np.linalg.det(C[:2, :2]) * np.linalg.det(C[2:, 2:]) - np.linalg.det(C) / (n - 2)
    return 2 * norm.cdf(-abs(C[0, 2] * C[1, 3] - C[0, 3] * C[1, 2]) / np.sqrt(abs(v)))


class Tetrads:
    """Reference decisions over a data frame; remembers how close a decision came to the level."""

    def __init__(self, data, alpha):
        self.c = list(data.columns)
        self.S, self.n, self.alpha = np.cov(data.to_numpy(), rowvar=False), len(data), alpha
        self.i = {v: a for a, v in enumerate(self.c)}
        self.margin, self.memo = 1., {}

    def p(self, *q):
        k = (frozenset((frozenset(q[:2]), frozenset(q[2:]))))
        if k not in self.memo:
            self.memo[k] = ref_p(self.S, self.n, *(self.i[v] for v in q))
            self.margin = min(self.margin, abs(self.memo[k] - self.alpha))
        return self.memo[k]

    def ok(self, *q):
        return self.p(*q) > self.alpha

    def cluster(self, C):
        rest = [v for v in self.c if v not in C]
        return len(rest) >= 2 and all(self.ok(a, b, k, s) for a, b in itertools.combinations(C, 2)
                                      for k, s in itertools.combinations(rest, 2))

    def pure(self, C):
        rest = [v for v in self.c if v not in C]
        return any(self.ok(C[0], k, C[1], s) for k, s in itertools.permutations(rest, 2))


def components(sets):
    out = []
    for s in sets:
        s = set(s)
        for o in [o for o in out if o & s]:
            out.remove(o)
            s |= o
        out.append(s)
    return {frozenset(s) for s in out}


def fs(x):
    return {frozenset(s) for s in x}


def exact(rng, C, names, n):
    """n records whose sample covariance is C, columns in random order."""
    d = len(C)
    Z = rng.normal(size=(n, d)) if rng.random() < .5 else rng.exponential(size=(n, d))
    Z -= Z.mean(0)
    Z = Z @ np.linalg.inv(np.linalg.cholesky(np.cov(Z.T))).T
    X = Z @ np.linalg.cholesky(C).T + rng.normal(size=d) * 5
    o = rng.permutation(d)
    return pd.DataFrame(X[:, o], columns=[names[i] for i in o])


def latent_cov(rng, children):
    """Covariance of the measured variables of a linear latent model given by latent -> children."""
    order = list(children)
    nodes = order + [c for v in children.values() for c in v if c not in children]
    idx = {v: i for i, v in enumerate(dict.fromkeys(nodes))}
    B = np.zeros((len(idx),) * 2)
    for l, cs in children.items():
        for c in cs:
            B[idx[c], idx[l]] = rng.uniform(.8, 2) * rng.choice([-1, 1])
    A = np.linalg.inv(np.eye(len(idx)) - B)
    C = A @ np.diag(rng.uniform(.5, 1.5, len(idx))) @ A.T
    obs = [v for v in idx if v not in children]
    o = [idx[v] for v in obs]
    s = np.exp(rng.normal(size=len(o)))
    return C[np.ix_(o, o)] * np.outer(s, s), obs


def measurement_model(rng, kmax=4):
    k = int(rng.integers(2, kmax + 1))
    m, c = {f'H{i}': [] for i in range(k)}, 0
    for i in range(k):
        m[f'H{i}'] += [f'H{j}' for j in range(i + 1, k) if j == i + 1 or rng.random() < .4]
        for _ in range(int(rng.integers(3, 5))):
            m[f'H{i}'].append(f'x{c}')
            c += 1
    return m


def random_frame(rng, p=None):
    p = p or int(rng.integers(4, 9))
    n = int(rng.choice([20, 100, 500]))
    kind = int(rng.integers(4))
    if kind == 0:
        return pd.DataFrame(rng.normal(size=(n, p)), columns=[f'x{i}' for i in range(p)])
    if kind == 1:
        return pd.DataFrame(rng.normal(size=(n, p)) @ rng.normal(size=(p, p)), columns=[f'x{i}' for i in rng.permutation(p)])
    k = int(rng.integers(1, 4))
    L = rng.exponential(size=(n, k)) @ np.triu(rng.normal(size=(k, k)))
    X = L[:, rng.integers(0, k, p)] * rng.uniform(.5, 2, p) + rng.normal(size=(n, p)) * rng.uniform(.1, 1, p)
    if kind == 3:
        X[:, 1] += X[:, 0]
    return pd.DataFrame(X, columns=[f'x{i}' for i in rng.permutation(p)])


@monitor(150, 3000, need=dict(quadruples=150))
def tetrads(ctx):
    """the tetrad test against Wishart's formula; units, offsets and exchange symmetries; decision at alpha"""
    V, rng = mod('VanishedTest'), ctx.rng
    X = random_frame(rng, 4).to_numpy()
    n = len(X)
    X0 = X.copy()
    ctx.case(ctx.case_seed)
    ctx.event('quadruples')
    S = np.cov(X, rowvar=False)
    want = ref_p(S, n, 0, 1, 2, 3)
    form = (lambda a: a) if rng.random() < .5 else pd.Series
    a = [form(X[:, i]) for i in range(4)]
    tol = dict(rtol=1e-5, atol=1e-9)
    got = V.vanishes_Pval(*a)
    ctx.close(got, want, 'tetrad/p-value', f'n={n}', **tol)
    ctx.check(np.array_equal(X, X0), 'tetrad/argument-changed', '')
    for q in [(1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)]:
        ctx.close(V.vanishes_Pval(*[a[i] for i in q]), got, 'tetrad/symmetry', str(q), **tol)
    D = np.exp(rng.normal(size=4)) * rng.choice([-1, 1], 4)
    ctx.close(V.vanishes_Pval(*[a[i] * D[i] + 3 for i in range(4)]), got, 'tetrad/units', '', rtol=1e-4, atol=1e-7)
    for q in [(0, 2, 1, 3), (0, 3, 1, 2)]:
        ctx.close(V.vanishes_Pval(*[a[i] for i in q]), ref_p(S, n, *q), 'tetrad/p-value', f'n={n} {q}', **tol)
    for al in (.01, .05, float(rng.random()), got * .9, min(1, got * 1.1)):
        if abs(al - got) > 1e-9:
            ctx.check(bool(V.vanishes(*a, alpha=al)) == bool(got > al), 'tetrad/decision', f'p={got} alpha={al}')


@monitor(8, 80, cpu=120, need=dict(calibrations=8))
def calibration(ctx):
    """one-factor quadruples of any loadings: the p-values of true tetrad constraints are uniform (KS at 1e-9)"""
    V, rng = mod('VanishedTest'), ctx.rng
    w = rng.uniform(.4, 3, 4)
    P = []
    for _ in range(250):
        X = rng.normal(size=(300, 1)) * w + rng.normal(size=(300, 4))
        P.append(V.vanishes_Pval(*X.T))
    ctx.event('calibrations')
    ctx.case(ctx.case_seed)
    q = kstest(P, 'uniform').pvalue
    ctx.check(q > 1e-9, 'tetrad/calibration', f'loadings {w}: KS p={q}, below .05: {np.mean(np.array(P) < .05)}')


def ref_find(R, cols):
    """Pairs, overlap-merged clusters, the pure and the impure ones among them, larger clusters."""
    pairs = [s for s in itertools.combinations(cols, 2) if R.cluster(s)]
    merged = components(pairs)
    B = set(cols) - set().union(*merged) if merged else set(cols)
    pure = {s for s in merged if len(s) > 2 or R.pure(tuple(s))}
    impure, big = merged - pure, set()
    size = 3
    while len(B) >= size and len(cols) > size + 2:
        new = {frozenset(s) for s in itertools.combinations(sorted(B), size) if R.cluster(s)}
        big |= new
        B -= set().union(*new) if new else set()
        size += 1
    return pairs, merged, pure, impure, big


def block_cov(rng):
    """one latent variable and groups of three or four measures with dense noise within a group: no pair is a cluster,
    each group is"""
    sizes = [[3, 3], [3, 3], [3, 4], [4, 4]][int(rng.integers(4))]
    p = sum(sizes)
    C = np.outer(*2 * [rng.uniform(.6, 1.2, p) * rng.choice([-1, 1], p)])
    o = 0
    for k in sizes:
        C[o:o + k, o:o + k] += (lambda a: a @ a.T)(rng.normal(size=(k, k + 1))) + .3 * np.eye(k)
        o += k
    q = rng.permutation(p)
    return C[np.ix_(q, q)], [f'x{i}' for i in range(1, p + 1)]


@monitor(60, 1000, cpu=120, need=dict(true=30, false=30))
def large_sets(ctx):
    """the cluster check on four to seven variables: whole clusters, clusters with an outsider anywhere, mixtures"""
    T, rng = mod('TetradMethod'), ctx.rng
    sizes = [int(rng.integers(4, 7)), int(rng.integers(2, 4)), int(rng.integers(2, 4))]
    A = rng.normal(size=(3, 5))
    S = A @ A.T + .3 * np.eye(3)
    of = np.repeat(np.arange(3), sizes)
    lam = rng.uniform(.5, 1.5, len(of)) * rng.choice([-1, 1], len(of))
    C = lam[:, None] * S[np.ix_(of, of)] * lam + np.diag(rng.uniform(.3, 2, len(of)))
    q = rng.permutation(len(of))
    names = [f'x{i}' for i in range(1, len(of) + 1)]
    X = exact(rng, C[np.ix_(q, q)], names, int(rng.integers(500, 5000)))
    alpha = float(rng.choice([.001, .01, .05]))
    R = Tetrads(X, alpha)
    own = [[names[i] for i in np.flatnonzero(of[q] == g)] for g in range(3)]
    ctx.case(ctx.case_seed)
    sets = [own[0], own[0][:4], own[0][:4] + own[1][:1], own[2][:1] + own[0][-4:], own[0][:3] + own[1][:2],
            [str(v) for v in rng.choice(names, int(rng.integers(4, 8)), replace=False)], own[0] + own[1][:1]]
    for c in sets:
        c = [str(v) for v in c]
        for d in (c, [c[int(i)] for i in rng.permutation(len(c))]):
            want = R.cluster(d)
            if R.margin < 1e-9:
                raise Skip
            ctx.event('true' if want else 'false')
            got = bool(quiet(T.CheckCausalCluster, d, X, alpha))
            ctx.check(got == want, 'cluster/large', lambda: f'{d} of {own} alpha={alpha}: {got}')


@monitor(120, 2000, cpu=120, need=dict(frames=60, clusters=20))
def clusters(ctx):
    """cluster and purity checks and the whole finding phase against the reference decisions over the same data"""
    T, F, rng = mod('TetradMethod'), mod('FindCausalCluster'), ctx.rng
    if ctx.index % 3 == 0:
        C, names = latent_cov(rng, measurement_model(rng, 2))
        X = exact(rng, C, names, 1000)
    elif ctx.index % 5 == 1:
        X = exact(rng, *block_cov(rng), int(rng.integers(1000, 4000)))
        ctx.event('groups')
    else:
        X = random_frame(rng)
    X0 = X.copy()
    alpha = float(rng.choice([.001, .01, .05, .2]))
    R = Tetrads(X, alpha)
    cols = list(X.columns)
    ctx.case(ctx.case_seed)
    checks = []
    for _ in range(6):
        k = int(rng.integers(2, min(4, len(cols) - 1) + 1))
        C = [cols[int(i)] for i in rng.choice(len(cols), k, replace=False)]
        checks.append((C, bool(quiet(T.CheckCausalCluster, C, X, alpha)), R.cluster(C),
                       bool(quiet(T.JudgePureCluster, C[:2], X, alpha)), R.pure(C[:2])))
    pairs, merged, pure, impure, big = ref_find(R, cols)
    if R.margin < 1e-9:
        raise Skip
    ctx.event('frames')
    ctx.event('clusters', len(merged) + len(big))
    for C, got, want, gp, wp in checks:
        ctx.check(got == want, 'cluster/check', lambda: f'{C} alpha={alpha}: {got}')
        ctx.check(gp == wp, 'cluster/purity', lambda: f'{C[:2]} alpha={alpha}: {gp}')
    given = [['p', 'q']], [['r', 's', 't']]
    L, P, I, Q = quiet(F.FindCausalCluster, X, [list(g) for g in given[0]], [list(g) for g in given[1]], alpha)
    tag = f'alpha={alpha} columns {cols}'
    ctx.check(fs(L) == merged | big, 'find/clusters', lambda: f'{tag}: {L}, expected {merged | big}')
    ctx.check(len(L) == len(fs(L)), 'find/duplicates', lambda: f'{tag}: {L}')
    ctx.check(fs(P) == pure | fs(given[0]), 'find/pure', lambda: f'{tag}: {P}, expected {pure}')
    ctx.check(fs(I) == impure | big | fs(given[1]), 'find/impure', lambda: f'{tag}: {I}, expected {impure | big}')
    ctx.check(fs(Q) == fs(pairs), 'find/pairs', lambda: f'{tag}: {Q}')
    ctx.check(X.equals(X0), 'find/data-changed', tag)


def ref_merge(R, cols, learned, pure):
    """Merged, pure and impure clusters after the merge rules without earlier latents."""
    todo = [list(c) for c in learned]
    wmerge, wpure, wimp = [], [], []
    while todo:
        c = todo.pop()
        hope = []
        for d in todo:
            rest = [v for v in cols if v not in c and v not in d]
            a, b = frozenset(c) in pure, frozenset(d) in pure
            if a and b:
                continue
            if not a and not b:
                f = all(R.ok(c[0], d[0], k, s) for k, s in itertools.combinations(rest, 2))
            else:
                p, i = (c, d) if a else (d, c)
                f = all(R.ok(p[0], i[0], p[1], s) for s in rest)
            if f:
                hope.append(d)
        for d in hope:
            todo.remove(d)
        if hope:
            wmerge.append(frozenset(v for d in [c] + hope for v in d))
        else:
            (wpure if frozenset(c) in pure else wimp).append(frozenset(c))
    return wmerge, wpure, wimp


@monitor(120, 2000, cpu=120, need=dict(steps=60))
def merging(ctx):
    """one finding, merging and updating step: every learned cluster is used once, merges follow the rules, the
    new frame holds the surrogates under their new names and every other column unchanged"""
    F, M, U, rng = mod('FindCausalCluster'), mod('MergeCluster'), mod('UpdataData'), ctx.rng
    if ctx.index % 3:
        while True:
            m = measurement_model(rng, 3)
            if ctx.index % 3 == 2:
                for v in m.values():          # groups of two: impure clusters
                    if rng.random() < .6:
                        v.pop()
            if sum(c[0] == 'x' for v in m.values() for c in v) > 4:
                break
        C, names = latent_cov(rng, m)
        X = exact(rng, C, names, 1000)
    else:
        X = random_frame(rng)
    alpha = float(rng.choice([.001, .01, .05]))
    cols = list(X.columns)
    X0 = X.copy()
    R = Tetrads(X, alpha)
    L, P, I, Q = quiet(F.FindCausalCluster, X, [], [], alpha)
    learned = [list(c) for c in L]
    pure = fs(P)
    wmerge, wpure, wimp = ref_merge(R, cols, L, pure)
    if R.margin < 1e-9:
        raise Skip
    ctx.event('steps')
    ctx.event('merges', len(wmerge))
    ctx.case(ctx.case_seed)
    res, P2, I2, A2, G2, LI = quiet(M.MergeCausalCluster, L, list(P), list(I), [list(q) for q in Q], [], {}, X, X, alpha)
    merge, early, removed, intro, rest = res
    tag = f'alpha={alpha} learned {learned} pure {P} impure {I}'
    ctx.check(fs(merge) == set(wmerge), 'merge/merged', lambda: f'{tag}: {merge}, expected {wmerge}')
    ctx.check(fs(intro) == set(wpure), 'merge/pure', lambda: f'{tag}: {intro}, expected {wpure}')
    ctx.check(fs(early) == set(wimp), 'merge/impure', lambda: f'{tag}: {early}, expected {wimp}')
    ctx.check(not removed and not LI, 'merge/early', tag)
    if learned:
        ctx.check(set(rest) == set(cols) - {v for c in learned for v in c}, 'merge/remaining', lambda: f'{tag}: {rest}')
    first = int(rng.integers(1, 5))
    groups = [list(g) for g in merge] + [list(g) for g in intro]
    old = {'L0': ['u', 'v']}
    new, num, LI = quiet(U.UpdataData, res, first, dict(old), X)
    want = [f'L{first + i}' for i in range(len(groups))]
    ctx.check(num == first + len(groups) and list(LI) == ['L0'] + want and LI['L0'] == ['u', 'v'] and
              [set(LI[w]) for w in want] == [set(g) for g in groups], 'update/latent-index', lambda: f'{tag}: {num} {LI}')
    kept = set(cols) - {v for g in groups for v in g}
    ctx.check(set(new.columns) == kept | set(want) and new.shape == (len(X), len(kept) + len(want)), 'update/columns',
              lambda: f'{tag}: {list(new.columns)}')
    if set(new.columns) == kept | set(want):
        for v in kept:
            ctx.check(np.array_equal(new[v], X[v]), 'update/kept-column', lambda: f'{tag}: {v} changed; {groups}')
        for w, g in zip(want, groups):
            ctx.check(any(np.array_equal(new[w], X[v]) for v in g), 'update/surrogate', lambda: f'{tag}: {w} of {g}')
    ctx.check(X.equals(X0), 'merge/data-changed', tag)


def learn(ctx, X, alpha, tag):
    """The whole algorithm; the final drawing is replaced by a recorder."""
    A, G = mod('Causal_Discovery_in_LHM'), mod('MakeGraph')
    rec = []
    old = G.Make_graph_Impure
    G.Make_graph_Impure = lambda L, I: rec.append(({k: list(v) for k, v in L.items()}, [list(c) for c in I]))
    try:
        quiet(A.Causal_Discovery_LHM, X, alpha)
    except SystemExit:
        ctx.fail('learn/exit', tag)
        raise Skip
    finally:
        G.Make_graph_Impure = old
    if not ctx.check(len(rec) == 1, 'learn/result', tag):
        raise Skip
    L, I = rec[0]
    ctx.event('learned')
    ctx.event('latents', len(L))
    obs = set(X.columns)
    tag = f'{tag}: {L}'
    ctx.check(set(L) == {f'L{i + 1}' for i in range(len(L))}, 'learn/latent-names', tag)
    seen = [v for c in L.values() for v in c]
    ctx.check(len(seen) == len(set(seen)), 'learn/two-parents', tag)
    ctx.check(set(seen) <= obs | set(L), 'learn/unknown-member', tag)
    ctx.check(all(len(c) >= 2 for c in L.values()), 'learn/small-cluster', tag)
    par = {v: k for k, c in L.items() for v in c}
    for v in L:
        k, w = 0, v
        while w in par and k <= len(L):
            k, w = k + 1, par[w]
        ctx.check(k <= len(L), 'learn/cycle', tag)
    return L, I


@monitor(200, 4000, need=dict(rollbacks=150))
def rollback(ctx):
    """rolling a latent back: its column is replaced by measured descendants, the two reported ones are those of two
    members of a pure cluster of the latent, or else of one learned cluster of it and another"""
    U, rng = mod('UpdataData'), ctx.rng
    obs = [f'x{i}' for i in range(14)]
    free, LI, pure, every, pool = [obs[int(i)] for i in rng.permutation(14)], {}, [], [], []
    for i in range(int(rng.integers(1, 5))):
        name, parts = f'L{i + 1}', []
        for _ in range(int(rng.integers(1, 3))):
            c = []
            for _ in range(2 + (rng.random() < .3)):
                c.append(pool.pop(int(rng.integers(len(pool)))) if pool and rng.random() < .5 else free.pop() if free else None)
            c = [v for v in c if v]
            if len(c) > 1:
                parts.append(c)
            else:
                pool += [v for v in c if v in LI]
        if not parts:
            continue
        mem = [v for c in parts for v in c]
        LI[name] = [mem[int(j)] for j in rng.permutation(len(mem))]
        every += [list(c) for c in parts]
        if len(parts) == 1 or rng.random() < .5:
            pure.append(list(parts[-1]))
        pool.append(name)
    if not pool:
        raise Skip
    n = 6
    ora = pd.DataFrame(rng.normal(size=(n, 14)), columns=obs)

    def measured(v):
        return {v} if v not in LI else set().union(*(measured(c) for c in LI[v]))

    act = {v: ora[sorted(measured(v))[0]] for v in pool}
    act.update({v: ora[v] for v in free})
    data = pd.DataFrame({v: act[v] for v in (list(act)[int(i)] for i in rng.permutation(len(act)))})
    keep = ora.copy(), data.copy(), {k: list(v) for k, v in LI.items()}
    L = pool[int(rng.integers(len(pool)))]
    t, two = quiet(U.roll_back, L, ora, data, LI, [list(c) for c in every], [list(c) for c in pure])
    ctx.event('rollbacks')
    ctx.case(ctx.case_seed)
    tag = f'{L} of {LI}, pure {pure}, clusters {every}: {list(t.columns)} {two}'
    new = [v for v in t.columns if v not in data.columns]
    mine = [set(c) for c in pure if set(c) <= set(LI[L])]
    # a measured variable stands for the member it descends from
    owner = {v: m for m in LI[L] for v in measured(m)}
    ok = set(t.columns) == (set(data.columns) - {L}) | set(new) and len(set(t.columns)) == t.shape[1] and len(two) == 2 and \
        set(new) <= set(owner) and set(two) <= set(new) and len({owner[v] for v in new}) == len(new)
    if ctx.check(ok, 'rollback/columns', tag):
        a, b = (owner[v] for v in two)
        if mine:
            ctx.check({a, b} <= set().union(*mine) and {owner[v] for v in new} == set().union(*mine), 'rollback/pure', tag)
        else:
            part = [set(c) for c in every if set(c) < set(LI[L])]
            ctx.check(any((a in c) != (b in c) for c in part), 'rollback/general-pure', tag)
        for v in t.columns:
            ctx.check(np.array_equal(t[v], ora[v] if v in new else data[v]), 'rollback/values', f'{tag} {v}')
    ctx.check(ora.equals(keep[0]) and data.equals(keep[1]) and LI == keep[2], 'rollback/argument-changed', tag)


@monitor(24, 400, cpu=600, need=dict(rounds=30, later=8))
def rounds(ctx):
    """every finding, merging and updating step of whole runs, later rounds over surrogates included, is the step of the
    rules from the state the run was in; a member found to be an earlier latent takes the rest of its cluster"""
    F, M, U, rng = mod('FindCausalCluster'), mod('MergeCluster'), mod('UpdataData'), ctx.rng
    kind = ctx.index % 3
    if kind == 0:
        X = random_frame(rng, int(rng.integers(7, 11)))
    else:
        m = measurement_model(rng, 4)
        if kind == 2:
            k = int(rng.integers(3, 5))
            m, c = {'R': [f'H{i}' for i in range(k)] + ['y0', 'y1'][:int(rng.integers(0, 3))]}, 0
            for i in range(k):
                q = int(rng.integers(2, 4))
                m[f'H{i}'] = [f'x{c + j}' for j in range(q)]
                c += q
        C, names = latent_cov(rng, m)
        X = exact(rng, C, names, 2000)
    alpha = float(rng.choice([.001, .01, .05]))
    log, old = [], (F.FindCausalCluster, M.MergeCausalCluster, U.UpdataData)
    cp = lambda x: [list(c) for c in x]

    def find(data, P, I, alpha=.01):
        d, p, i = data.copy(), cp(P), cp(I)
        r = old[0](data, P, I, alpha)
        log.append(('find', d, p, i, [cp(x) for x in r]))
        return r

    def merge(L, P, I, A, G, LI, data, ora, alpha=.01):
        before = data.copy(), cp(L), fs(P), {k: set(v) for k, v in LI.items()}
        r = old[1](L, P, I, A, G, LI, data, ora, alpha)
        log.append(('merge', before, [list(r[0][k]) if k == 4 else cp(r[0][k]) for k in range(5)],
                    {k: set(v) for k, v in r[5].items()}))
        return r

    def update(res, num, LI, data):
        before = cp(res[0]) + cp(res[3]), cp(res[2]), num, {k: set(v) for k, v in LI.items()}, data.copy()
        r = old[2](res, num, LI, data)
        log.append(('update', before, r[0].copy(), r[1], {k: set(v) for k, v in r[2].items()}))
        return r

    F.FindCausalCluster, M.MergeCausalCluster, U.UpdataData = find, merge, update
    try:
        learn(ctx, X, alpha, f'{X.shape} alpha={alpha}')
    finally:
        F.FindCausalCluster, M.MergeCausalCluster, U.UpdataData = old
    ctx.case(ctx.case_seed)
    R, rnd, margin = None, 0, False
    for step in log:
        tag = f'round {rnd} alpha={alpha}'
        if step[0] == 'find':
            _, d, p, i, (L, P, I, Q) = step
            rnd += 1
            R = Tetrads(d, alpha)
            pairs, merged, pure, impure, big = ref_find(R, list(d.columns))
            if R.margin < 1e-9:
                return
            ctx.event('rounds')
            ctx.event('later', rnd > 1)
            ctx.check(fs(L) == merged | big and fs(Q) == fs(pairs), 'rounds/clusters', lambda: f'{tag}: {L}, expected {merged | big}')
            ctx.check(fs(P) == pure | fs(p) and fs(I) == impure | big | fs(i), 'rounds/purity', lambda: f'{tag}: {P} {I}')
        elif step[0] == 'merge':
            _, (d, learned, pure, LI), (mrg, early, removed, intro, rest), LI2 = step
            tag += f' learned {learned} latents {LI}'
            used = [frozenset(c) for c in mrg + intro + early] + [frozenset(c) - {c[0]} for c in removed]
            heads = {x[0] for x in removed}
            ctx.check(set().union(*used) - heads == {v for c in learned for v in c} - heads or not learned,
                      'rounds/used', lambda: f'{tag}: {mrg} {early} {removed} {intro}')
            for c in removed:
                ctx.event('early')
                ctx.check(c[0] in LI and set(c[1:]) <= LI2.get(c[0], set()), 'rounds/early', lambda: f'{tag}: {removed} {LI2}')
            ctx.check(set(LI2) == set(LI) and all(LI2[k] == LI[k].union(*[c[1:] for c in removed if c[0] == k]) for k in LI),
                      'rounds/latents', lambda: f'{tag}: {removed} {LI2}')
            if not removed:
                wm, wp, wi = ref_merge(R, list(d.columns), learned, pure)
                if R.margin < 1e-9:
                    return
                ctx.check(fs(mrg) == set(wm) and fs(intro) == set(wp) and fs(early) == set(wi), 'rounds/merge',
                          lambda: f'{tag}: merged {mrg} pure {intro} impure {early}, expected {wm} {wp} {wi}')
            if learned:
                ctx.check(set(rest) <= set(d.columns) - {v for c in learned for v in c}, 'rounds/remaining', lambda: f'{tag}: {rest}')
        else:
            _, (groups, removed, num, LI, d), new, num2, LI2 = step
            names = [f'L{num + i}' for i in range(len(groups))]
            gone = {v for g in groups for v in g} | {v for c in removed for v in c[1:]}
            kept = set(d.columns) - gone
            ctx.check(num2 == num + len(groups) and LI2 == {**LI, **{n: set(g) for n, g in zip(names, groups)}}, 'rounds/new-latents',
                      lambda: f'{tag}: {groups} {LI} {LI2}')
            if ctx.check(set(new.columns) == kept | set(names) and len(new) == len(d), 'rounds/columns',
                         lambda: f'{tag}: {groups} {removed}: {list(d.columns)} to {list(new.columns)}'):
                for v in kept:
                    ctx.check(np.array_equal(new[v], d[v]), 'rounds/kept-column', lambda: f'{tag}: {v}')
                for w, g in zip(names, groups):
                    ctx.check(any(np.array_equal(new[w], X[v]) for v in X), 'rounds/surrogate', lambda: f'{tag}: {w} of {g}')


@monitor(64, 1500, cpu=300, need=dict(learned=50, latents=50))
def any_data(ctx):
    """on any data the algorithm ends with a forest over measured and numbered latent variables; data unchanged"""
    rng = ctx.rng
    X = random_frame(rng)
    X0 = X.copy()
    alpha = float(rng.choice([.001, .01, .05, .3]))
    L, I = learn(ctx, X, alpha, f'{X.shape} alpha={alpha}')
    ctx.check(X.equals(X0), 'learn/data-changed', '')
    ctx.case(ctx.case_seed)


@monitor(48, 600, cpu=600, need=dict(recovered=30))
def measurement(ctx):
    """measurement models (any DAG over the latents, three or four measures each): the measured part of the result is
    exactly the true grouping"""
    rng = ctx.rng
    m = measurement_model(rng, 4)
    C, names = latent_cov(rng, m)
    X = exact(rng, C, names, 5000)
    groups = {frozenset(c for c in v if c[0] == 'x') for v in m.values()}
    R = Tetrads(X, .01)
    for a, b in itertools.combinations(names, 2):
        if not any({a, b} <= g for g in groups):
            rest = [v for v in names if v not in (a, b)]
            if min(R.p(a, b, k, s) for k, s in itertools.combinations(rest, 2)) > 1e-5:
                raise Skip      # a false constraint that is too weak to be seen
    tag = f'{m} order {list(X.columns)}'
    L, I = learn(ctx, X, .01, tag)
    ctx.event('recovered')
    ctx.case(ctx.case_seed, m)
    got = {frozenset(v for v in c if v in names) for c in L.values()} - {frozenset()}
    ctx.check(got == groups, 'learn/measurement-clusters', lambda: f'{tag}: {L}')


@monitor(16, 160, cpu=600, need=dict(recovered=8))
def hierarchy(ctx):
    """four or five groups under one latent root, with or without a second layer: groups, then the root over them"""
    rng = ctx.rng
    k = int(rng.integers(4, 6 if ctx.thorough else 5))
    m = {'R': [f'H{i}' for i in range(k)]}
    c = 0
    for i in range(k):
        m[f'H{i}'] = []
        for _ in range(3 if rng.random() < .7 else 4):
            m[f'H{i}'].append(f'x{c}')
            c += 1
    C, names = latent_cov(rng, m)
    X = exact(rng, C, names, 5000)
    groups = {frozenset(v) for n, v in m.items() if n != 'R'}
    R = Tetrads(X, .01)
    for a, b in itertools.combinations(names, 2):
        if not any({a, b} <= g for g in groups):
            rest = [v for v in names if v not in (a, b)]
            if min(R.p(a, b, q, s) for q, s in itertools.combinations(rest, 2)) > 1e-5:
                raise Skip
    tag = f'{m} order {list(X.columns)}'
    L, I = learn(ctx, X, .01, tag)
    ctx.event('recovered')
    ctx.case(ctx.case_seed, m)
    low = {n for n, v in L.items() if frozenset(v) in groups}
    ctx.check({frozenset(L[n]) for n in low} == groups, 'learn/groups', lambda: f'{tag}: {L}')
    ctx.check([set(v) for n, v in L.items() if n not in low] == [low], 'learn/root', lambda: f'{tag}: {L}')


@monitor(200, 4000, need=dict(lists=200))
def lists(ctx):
    """cluster list helpers: merging of overlapping clusters, set comparisons, latent tables for drawing"""
    U, G, rng = mod('Utils'), mod('MakeGraph'), ctx.rng
    names = [f'v{i}' for i in range(9)]
    pick = lambda lo, hi: [names[int(i)] for i in rng.choice(9, int(rng.integers(lo, hi)), replace=False)]
    sets = [(list, tuple)[int(rng.integers(2))](pick(1, 4)) for _ in range(int(rng.integers(0, 7)))]
    keep = [type(s)(s) for s in sets]
    ctx.event('lists')
    ctx.case(repr(sets))
    for m in ('Overlap_Merge', 'Paper_simulation'):
        r = mod(m).merge_list(sets)
        ctx.check(fs(r) == components(sets) and len(r) == len(fs(r)) and all(list(s) == sorted(set(s)) for s in r),
                  'lists/merge', lambda: f'{sets}: {r}')
    s = pick(0, 4)
    a = set(s)
    for op, f in {'>': a.__gt__, '>=': a.__ge__, '=': a.__eq__, '<': a.__lt__, '<=': a.__le__}.items():
        ctx.check(U.GeneralSetOperator(s, sets, op) == any(f(set(t)) for t in sets), 'lists/operator', lambda: f'{s} {op} {sets}')
    ctx.check(U.GeneralSetContains(s, sets) == any(a == set(t) for t in sets) and
              U.GeneralSetCover(s, sets) == any(a <= set(t) for t in sets) and
              U.GeneralSetStrictCover(s, sets) == any(a < set(t) for t in sets), 'lists/cover', lambda: f'{s} {sets}')
    d = {f'L{i}': t for i, t in enumerate(sets)}
    first = [k for k, t in d.items() if set(t) == a]
    ctx.check(U.GeneralDicContains(s, d) == bool(first) and U.GetEarlyLearningByDic(s, d) == (first + [''])[0], 'lists/dict',
              lambda: f'{s} {d}')
    more = [pick(1, 3) for _ in range(4)]
    base = [list(t) for t in sets]
    r = U.ExtendList([list(t) for t in base], more)
    new = []
    for t in more:
        if set(t) not in [set(x) for x in base + new]:
            new.append(t)
    ctx.check(r == base + new, 'lists/extend', lambda: f'{base} {more}: {r}')
    ctx.check(sets == keep, 'lists/argument-changed', lambda: f'{sets}')
    # impure clusters give the earlier latent an edge to the later members
    lat = {f'L{i}': pick(2, 4) for i in range(4)}
    imp = [[('L%d' % i if rng.random() < .7 else f'v{i}') for i in rng.permutation(4)[:int(rng.integers(2, 5))]] for _ in range(2)]
    want = {k: set(v) for k, v in lat.items()}
    for c in imp:
        for i, l in enumerate(c):
            if l in want:
                want[l] |= set(c[i + 1:])
    r = quiet(G.tranImpureToLatentIndex, {k: list(v) for k, v in lat.items()}, imp)
    ctx.check({k: set(v) for k, v in r.items()} == want, 'lists/impure', lambda: f'{lat} {imp}: {r}')
    # cluster dictionaries to latent tables
    n = [int(rng.integers(0, 3)), int(rng.integers(0, 3))]
    groups = [[f'g{i}a', f'g{i}b', f'g{i}c'] for i in range(sum(n))]
    cl = {'1': groups[:n[0]], '2': groups[n[0]:]}
    order = [groups[int(i)] for i in rng.permutation(len(groups))]
    LI, roots, share = quiet(G.Transfer2Index, cl, order)
    ctx.check(sorted(map(sorted, LI.values())) == sorted(map(sorted, groups[:n[0]] + groups[n[0]:] * 2)) and
              [set(LI[r]) for r in roots] == [set(g) for g in order for _ in range(1 + (g in groups[n[0]:]))] and
              len(set(roots)) == len(roots) == len(LI), 'lists/transfer', lambda: f'{cl} {order}: {LI} {roots}')
    for x, y in itertools.combinations(LI, 2):
        ctx.check(G.RmoveEdgeBetweenN_factor(x, y, share) == (set(LI[x]) == set(LI[y])), 'lists/n-factor', f'{x} {y} {LI} {share}')
