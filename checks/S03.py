"""Greedy equivalence search: brute-force greedy reference, recovery with a population score, output validity."""
from math import log

import numpy as np

from checks.S01 import gen_disc
from vlib import graphs as G
from vlib.core import Skip, monitor

QUICK = 2      # times the quick cases of each monitor
RULE = ('One case = one data set or one population covariance, a score function and a parent limit. The fitted class and '
        'score are compared with a greedy search that enumerates, by brute force, every DAG of the current class and every '
        'one-edge change of it (up to 5 variables), or with the true CPDAG; every score query is logged. Distinct = data '
        'seed and settings; non-trivial = the result has an edge.')
ASSUMPTIONS = ['reference search: score-equivalent scores without ties between classes',
               'recovery: faithful Gaussian population with a clearly non-zero dependence on each edge']


def logged(base, log_):
    class Logged(base):
        def __call__(self, i, parent_i, *a, **k):
            pa = list(parent_i)
            r = super().__call__(i, pa)
            log_.append((i, tuple(pa), float(r)))
            return r
    return Logged


def population_score(Sigma, n):
    from cdmir.utils.local_score import BaseLocalScoreFunction

    class Pop(BaseLocalScoreFunction):
        def _score_function(self, i, parent_i):
            pa = [int(p) for p in parent_i]
            v = Sigma[i, i]
            if pa:
                v = v - Sigma[i, pa] @ np.linalg.solve(Sigma[np.ix_(pa, pa)], Sigma[pa, i])
            return float(-n * log(v) - len(pa) * log(n))

    return Pop


class Tie(Exception):
    pass


def greedy_reference(d, local, max_p, ctx):
    memo = {}

    def total(edges):
        pa = {j: [] for j in range(d)}
        for a, b in edges:
            pa[b].append(a)
        s = 0.
        for j in range(d):
            k = (j, frozenset(pa[j]))
            if k not in memo:
                memo[k] = float(local(j, sorted(pa[j])))
            s += memo[k]
        return s

    def key(edges):
        D, U = G.cpdag_chickering(range(d), edges)
        return frozenset(D), frozenset(U)

    cur, score = frozenset(), total(())
    path = []
    for phase in ('insert', 'delete'):
        while True:
            D, U, exts = G.cpdag_brute(range(d), cur)
            cand = {}
            if phase == 'insert':
                npa = {j: sum(b == j for _, b in D) for j in range(d)}
            for e in exts:
                e = frozenset(e)
                sk = G.skeleton(e)
                if phase == 'insert':
                    for a in range(d):
                        for b in range(d):
                            if a != b and frozenset((a, b)) not in sk and npa[b] <= max_p \
                                    and G.acyclic(range(d), e | {(a, b)}):
                                f = e | {(a, b)}
                                cand.setdefault(key(f), f)
                else:
                    for x in e:
                        f = e - {x}
                        cand.setdefault(key(f), f)
            if not cand:
                break
            vals = sorted(((total(f), i, f) for i, f in enumerate(cand.values())), key=lambda t: -t[0])
            scale = 1e-8 * max(1., abs(score))
            if abs(vals[0][0] - score) < scale or (len(vals) > 1 and vals[0][0] - vals[1][0] < scale
                                                   and vals[0][0] > score):
                raise Tie()
            if vals[0][0] <= score:
                break
            score, cur = vals[0][0], vals[0][2]
            path.append(phase)
    D, U = key(cur)
    for p in path:
        ctx.event(p + 's')
    return set(D), {frozenset(x) for x in U}, score


def read_result(ctx, ges, d, tag):
    """The result as (directed, undirected) over indices, after checking that it is a CPDAG."""
    g = ges.get_causal_graph()
    names = list(g.nodes)
    if not ctx.check(len(names) == d and len(set(names)) == d, 'nodes', f'{tag}: {names}'):
        return None
    ix = {v: i for i, v in enumerate(names)}
    Dn, Un, o = G.read_graph(g)
    ctx.check(not o, 'marks', f'{tag}: {o}')
    D = {(ix[a], ix[b]) for a, b in Dn}
    U = {frozenset(ix[v] for v in e) for e in Un}
    ext = G.consistent_extensions(range(d), D, U, limit=1)
    if not ctx.check(bool(ext), 'not-extendable', f'{tag}: {sorted(D)} {[sorted(u) for u in U]}'):
        return None
    ctx.check(G.cpdag_chickering(range(d), ext[0]) == (D, U), 'not-a-cpdag', f'{tag}: {sorted(D)} {[sorted(u) for u in U]}')
    ctx.event('results')
    ctx.event('edges', len(D) + len(U))
    return D, U, ext[0]


def check_log(ctx, log_, d, tag):
    for i, pa, _ in log_:
        ok = 0 <= i < d and i not in pa and len(set(pa)) == len(pa) and all(0 <= p < d for p in pa)
        if not ctx.check(ok, 'score-query', f'{tag}: score asked for {i} given {pa}'):
            return
    ctx.event('score_queries', len(log_))


def total_of(score, edges, d):
    pa = {j: [] for j in range(d)}
    for a, b in edges:
        pa[b].append(a)
    return sum(float(score(j, pa[j])) for j in range(d))


def gen_linear(rng, d, n):
    edges = G.random_dag(rng, d)
    A = np.zeros((d, d))
    for a, b in edges:
        A[a, b] = rng.choice([-1, 1]) * rng.uniform(.2, 1.5)
    order = G.topo_order(range(d), edges)
    X = rng.normal(size=(n, d))
    for j in order:
        X[:, j] += X @ A[:, j]
    return X


# found by search: the greedy path inserts the weak edge last, over three or four undirected neighbours at once
LATE = [88, 100532, 180, 564, 100708, 600, 642, 300952, 698, 814]


def gen_clique(rng, m, n=300):
    """m + 1 variables that all depend on each other, and one more with a weak effect on the last of them"""
    X = rng.normal(size=(n, m + 2))
    for j in range(1, m + 1):
        X[:, j] += X[:, :j] @ (rng.choice([-1, 1], j) * rng.uniform(.6, 1.2, j))
    X[:, m] += rng.uniform(.25, .5) * X[:, m + 1]
    return X[:, rng.permutation(m + 2)]


@monitor(quick=600, thorough=8000, cpu=300, need={'results': 300, 'compared': 200, 'inserts': 400, 'deletes': 10})
def against_reference(ctx):
    """GES result and score against brute-force greedy search over equivalence classes (BIC or BDeu on data)"""
    from cdmir.discovery.score_based import GES
    from cdmir.utils.local_score import BDeuScore, BICScore
    rng = ctx.rng
    log_, wide = [], False
    if rng.random() < .3:
        V, codes, card, kind = gen_disc(rng)
        d = min(codes.shape[1], 4)
        X, kw, cls = codes[:, :d], {'sample_prior': float(rng.choice([1, 10]))}, BDeuScore
        if len(X) < 10:
            raise Skip()
    else:
        wide = ctx.index % 20 == 7
        m = 4 if LATE[ctx.index // 20 % len(LATE)] > 1e5 else 3
        d = int(rng.choice([2, 3, 4, 5], p=[.1, .3, .4, .2])) if not wide else m + 2
        X = gen_linear(rng, d, int(rng.choice([12, 40, 150]))) if not wide else \
            gen_clique(np.random.default_rng(LATE[ctx.index // 20 % len(LATE)]), m) if rng.random() < .7 else gen_clique(rng, m)
        kw, cls = {'lambda_value': float(rng.choice([.05, .3, 1, 2]) if not wide else 1)}, BICScore
        if wide:
            ctx.event('wide')
    max_p = d if wide else None if rng.random() < .4 else int(rng.integers(0, d + 1))
    tag = f'{cls.__name__} d={d} n={len(X)} {kw} max_p={max_p}'
    before = X.copy()
    score = logged(cls, log_)(X, **kw)
    ges = GES(score) if max_p is None else GES(score, max_p=max_p)
    ctx.raises(ges.get_causal_graph, 'result-before-fit', tag)
    ges.fit()
    ctx.check(np.array_equal(before, X), 'data-changed', tag)
    check_log(ctx, log_, d, tag)
    r = read_result(ctx, ges, d, tag)
    if r is None:
        return
    D, U, ext = r
    fresh = cls(X.copy(), **kw)
    got = float(ges.get_score())
    ctx.close(got, total_of(fresh, ext, d), 'score-of-result', tag, 1e-8, 1e-6)
    try:
        wD, wU, ws = greedy_reference(d, fresh, d / 2 if max_p is None else max_p, ctx)
    except Tie:
        ctx.event('ties')
        return
    ctx.event('compared')
    ctx.close(got, ws, 'score-of-greedy-path', tag, 1e-8, 1e-6)
    ctx.check((D, U) == (wD, wU), 'class', lambda: f'{tag}\n got {sorted(D)} {[sorted(u) for u in U]}\nwant {sorted(wD)} '
                                                   f'{[sorted(u) for u in wU]}')
    ctx.case(cls.__name__, ctx.case_seed, tag)


@monitor(quick=400, thorough=4000, cpu=400, need={'results': 250, 'recovered': 250})
def recovery(ctx):
    """with a population (infinite-sample) Gaussian score the result is the CPDAG of the generating DAG"""
    from cdmir.discovery.score_based import GES
    rng = ctx.rng
    mode = ctx.index % 8
    weak = []
    if mode == 0:  # sparse and larger
        d = int(rng.choice([8, 9]))
        edges = G.random_dag(rng, d, float(rng.choice([.15, .3])))
    elif mode == 1:  # a clique of parents, and spouses that join late
        d = int(rng.choice([5, 6, 7], p=[.5, .35, .15]))
        m = int(rng.integers(3, min(d - 1, 4) + 1))
        q = [int(v) for v in rng.permutation(d)]
        edges = [(q[a], q[b]) for b in range(m + 1) for a in range(b)]
        weak = [(q[k], q[m]) for k in range(m + 1, d)]
        edges = edges + weak
        ctx.event('clique')
    else:
        d = int(rng.choice([3, 4, 5, 6, 7], p=[.15, .25, .3, .2, .1]))
        edges = G.random_dag(rng, d, float(rng.choice([.3, .5, .7])))
    A = np.zeros((d, d))
    for a, b in edges:
        A[a, b] = rng.choice([-1, 1]) * (rng.uniform(.1, .4) if (a, b) in weak else rng.uniform(.4, 1.4))
    # x = A' x + e
    M = np.linalg.inv(np.eye(d) - A.T)
    Sigma = M @ np.diag(rng.uniform(.5, 2, d)) @ M.T
    n = 1e8
    # faithfulness margin: any pair that is not d-separated keeps a clear partial correlation
    from itertools import combinations
    for x, y in combinations(range(d), 2):
        rest = [v for v in range(d) if v not in (x, y)]
        for k in range(len(rest) + 1):
            for z in combinations(rest, k):
                s = [x, y, *z]
                P = np.linalg.inv(Sigma[np.ix_(s, s)])
                r = -P[0, 1] / np.sqrt(P[0, 0] * P[1, 1])
                if not G.d_separated(range(d), edges, x, y, z) and abs(r) < .005:
                    raise Skip()
    log_ = []
    score = logged(population_score(Sigma, n), log_)(np.zeros((3, d)))
    ges = GES(score, max_p=d)
    ges.fit()
    tag = f'd={d} edges={sorted(edges)}'
    check_log(ctx, log_, d, tag)
    r = read_result(ctx, ges, d, tag)
    if r is None:
        return
    want = G.cpdag_chickering(range(d), edges)
    ctx.check((r[0], r[1]) == want, 'recovery', lambda: f'{tag}\n got {sorted(r[0])} {[sorted(u) for u in r[1]]}\nwant {want}')
    ctx.event('recovered')
    if edges:
        ctx.case(tuple(sorted(edges)), ctx.case_seed)


@monitor(quick=16, thorough=150, cpu=400, need={'results': 8})
def kernel_scores(ctx):
    """GES with the RKHS scores (plain and block variables) ends in a valid class whose score is not below the empty graph"""
    from cdmir.discovery.score_based import GES
    from cdmir.utils.local_score import GeneralCVScore, GeneralMarginalScore, MultiCVScore, MultiMarginalScore
    rng = ctx.rng
    n = int(rng.integers(24, 40))
    X = rng.normal(size=(n, 4))
    X[:, 1] = np.tanh(2 * X[:, 0]) + .3 * X[:, 1]
    X[:, 2] = X[:, 1] * X[:, 3] + .3 * X[:, 2]
    k = ctx.index % 4
    log_ = []
    if k == 0:
        s, d = logged(GeneralCVScore, log_)(X[:, :3], k_fold=4), 3
    elif k == 1:
        s, d = logged(GeneralMarginalScore, log_)(X[:, :3]), 3
    else:
        lab = {0: [0], 1: [1, 3], 2: [2]}
        s = MultiCVScore(X, k_fold=4, d_label=lab) if k == 2 else MultiMarginalScore(X, d_label=lab)
        d = 3
    ges = GES(s)
    ges.fit()
    check_log(ctx, log_, d, str(k))
    r = read_result(ctx, ges, d, f'score {k}')
    empty = sum(float(s(j, [])) for j in range(d))
    ctx.check(float(ges.get_score()) >= empty - 1e-6 * abs(empty), 'score-decreased', f'{ges.get_score()} < {empty}')
    ctx.case(k, ctx.case_seed)


@monitor(quick=1, thorough=1, cpu=60, need={'rejections_expected': 1})
def refused(ctx):
    """a score that is not a local score function is refused"""
    from cdmir.discovery.score_based import GES
    ctx.raises(lambda: GES(lambda i, pa: 0.), 'accepted-any-callable', 'GES(function)')
    ctx.case('refused')
