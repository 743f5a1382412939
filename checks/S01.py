"""BIC and BDeu local scores: reference values, memo transparency, score equivalence."""
from math import lgamma, log

import numpy as np
import pandas as pd

from vlib import graphs as G
from vlib.core import monitor

QUICK = 3      # times the quick cases of each monitor
RULE = ('One case = one data set (continuous for BIC, categorical for BDeu, in several dtypes and containers), one '
        'setting of the score parameters and a history of local-score queries with parents given as lists, tuples, sets, '
        'arrays or generators, in any order, with repeats. Distinct = data seed and query history; non-trivial = a '
        'repeated query and a query with at least two parents.')
ASSUMPTIONS = ['parents are distinct and exclude the child', 'BIC: no exact collinearity, more records than variables',
               'BDeu: 0 < structure_prior < records - 1']


def parents_as(rng, pa):
    pa = list(pa)
    pa = [pa[i] for i in rng.permutation(len(pa))]
    k = int(rng.integers(7))
    if k == 0:
        return list(pa)
    if k == 1:
        return tuple(pa)
    if k == 2:
        return set(pa)
    if k == 3:
        return np.array(pa, dtype=int)
    if k == 4:
        return (x for x in pa)
    if k == 5:
        return [np.int64(x) for x in pa]
    return {x: 0 for x in pa}.keys()


def queries(rng, d, m, kmax):
    out = []
    for _ in range(m):
        if out and rng.random() < .3:
            out.append(out[int(rng.integers(len(out)))])
            continue
        i = int(rng.integers(d))
        rest = [j for j in range(d) if j != i]
        k = int(rng.integers(min(len(rest), kmax) + 1))
        out.append((i, frozenset(int(x) for x in rng.choice(rest, k, replace=False))))
    return out


def bic_ref(X, i, pa, lam):
    Z = (X - X.mean(axis=0)) / X.std(axis=0)
    n = len(X)
    if not pa:
        return 0.
    A = Z[:, sorted(pa)]
    r = Z[:, i] - A @ np.linalg.lstsq(A, Z[:, i], rcond=None)[0]
    return -(n * log((r ** 2).mean()) + lam * len(pa) * log(n))


def bdeu_ref(codes, card, i, pa, ess, sp):
    n = len(codes)
    pa = sorted(pa)
    q = 1
    for p in pa:
        q *= card[p]
    vm = n - 1
    s = len(pa) * log(sp / vm) + (vm - len(pa)) * log(1 - sp / vm)
    cells = {}
    for row in codes:
        c = cells.setdefault(tuple(row[pa]), {})
        c[row[i]] = c.get(row[i], 0) + 1
    for c in cells.values():
        s += lgamma(ess / q) - lgamma(sum(c.values()) + ess / q)
        for v in c.values():
            s += lgamma(v + ess / (q * card[i])) - lgamma(ess / (q * card[i]))
    return s


def gen_cont(rng):
    d = int(rng.integers(2, 7))
    n = int(rng.choice([d + 3, 20, 60, 300, 1500]))
    A = np.triu(rng.normal(size=(d, d)) * (rng.random((d, d)) < .6), 1)
    X = rng.normal(size=(n, d)) if rng.random() < .6 else rng.exponential(size=(n, d))
    for j in range(d):
        X[:, j] += X @ A[:, j]
    return X * np.exp(rng.normal(size=d)) + rng.normal(size=d) * 5


def gen_disc(rng):
    """(values as the user would pass them, integer codes, cardinalities)"""
    d = int(rng.integers(2, 6)) if rng.random() < .7 else int(rng.integers(6, 9))
    n = int(rng.choice([6, 15, 40, 150]))
    codes = np.zeros((n, d), dtype=int)
    for j in range(d):
        r = int(rng.integers(1, 5)) if rng.random() < .85 else int(rng.choice([7, 9, 12, 26]))
        base = rng.integers(r, size=n)
        if j and rng.random() < .7:
            k = int(rng.integers(j))
            mask = rng.random(n) < .6
            base = np.where(mask, codes[:, k] % r, base)
        codes[:, j] = base
    card = [len(set(codes[:, j])) for j in range(d)]
    kind = ['int', 'float', 'neg', 'str', 'mixed'][int(rng.integers(5))]
    if kind == 'int':
        V = codes.copy()
    elif kind == 'float':
        V = codes * 0.1 + 0.05
    elif kind == 'neg':
        V = 7 - 3 * codes
    elif kind == 'str':
        V = np.array([[f'c{v}' for v in r] for r in codes], dtype=object)
    else:
        V = codes.astype(object)
        for j in range(d):
            if rng.random() < .5:
                V[:, j] = ['abcdefghijklmnopqrstuvwxyz'[v] for v in codes[:, j]]
    return V, codes, card, kind


def drive(ctx, cls, data, kwargs, ref, qs, tag, rtol=1e-8, atol=1e-8):
    score = cls(data, **kwargs)
    twin = cls(data, **kwargs)
    first = {}
    for t, (i, pa) in enumerate(qs):
        arg = parents_as(ctx.rng, pa)
        before = None if hasattr(arg, '__next__') else list(arg)
        got = score(i, arg)
        ctx.event('queries')
        ctx.event('parents_%d' % len(pa))
        if before is not None:
            ctx.check(list(arg) == before, 'argument-changed', f'{tag} {i} {before}')
        ctx.check(np.isscalar(got) or np.ndim(got) == 0, 'not-a-number', f'{tag}: {got!r}')
        if not ctx.close(got, ref(i, pa), 'value', f'{tag} query {t}: i={i} parents={sorted(pa)}', rtol, atol):
            return
        if (i, pa) in first:
            ctx.event('repeats')
            ctx.close(got, first[i, pa], 'history', f'{tag} repeated query i={i} parents={sorted(pa)}', rtol, atol)
        first.setdefault((i, pa), got)
        if ctx.rng.random() < .2:
            ctx.close(twin(i, sorted(pa)), first[i, pa], 'instance', f'{tag} i={i} parents={sorted(pa)}', rtol, atol)


@monitor(quick=400, thorough=8000, cpu=60, need={'queries': 1000, 'repeats': 100, 'parents_0': 50, 'parents_2': 50})
def bic(ctx):
    """BICScore against residual variances by least squares, over query histories"""
    from cdmir.utils.local_score import BICScore
    rng = ctx.rng
    X = gen_cont(rng)
    n, d = X.shape
    lam = [None, 1, 2, .5, 10, 0][int(rng.integers(6))]
    kw = {} if lam is None else {'lambda_value': lam}
    df = rng.random() < .4
    data = pd.DataFrame(X.copy(), columns=[f'v{j}' for j in range(d)]) if df else X.copy()
    qs = queries(rng, d, 20, 5)
    drive(ctx, BICScore, data, kw, lambda i, pa: bic_ref(X, i, pa, 1 if lam is None else lam), qs,
          f'BIC n={n} d={d} lam={lam} df={df}', rtol=1e-6, atol=1e-6)
    ctx.check(np.array_equal(np.asarray(data), X), 'data-changed', 'BIC')
    ctx.case('bic', ctx.case_seed, n, d, lam, df)


@monitor(quick=240, thorough=3000, cpu=120, need={'queries': 1000, 'repeats': 100, 'parents_0': 50, 'parents_2': 50})
def bdeu(ctx):
    """BDeuScore against the Dirichlet marginal likelihood counted by hand, over query histories"""
    from cdmir.utils.local_score import BDeuScore
    rng = ctx.rng
    V, codes, card, kind = gen_disc(rng)
    n, d = codes.shape
    kw = {}
    if rng.random() < .6:
        kw['sample_prior'] = [1, 10, .3, 5.5][int(rng.integers(4))]
    if rng.random() < .6:
        kw['structure_prior'] = [1, .5, 2][int(rng.integers(3))]
    df = rng.random() < .4
    data = pd.DataFrame(V.copy(), columns=[f'v{j}' for j in range(d)]) if df else V.copy()
    qs = queries(rng, d, 9, 3 if rng.random() < .6 else 6)
    drive(ctx, BDeuScore, data, kw,
          lambda i, pa: bdeu_ref(codes, card, i, pa, kw.get('sample_prior', 1), kw.get('structure_prior', 1)), qs,
          f'BDeu n={n} card={card} kind={kind} df={df} {kw}')
    ctx.check(bool((np.asarray(data) == V).all()), 'data-changed', 'BDeu')
    ctx.case('bdeu', ctx.case_seed, n, card, kind, kw)


def total(score, edges, d):
    pa = {j: [] for j in range(d)}
    for a, b in edges:
        pa[b].append(a)
    return sum(score(j, pa[j]) for j in range(d))


@monitor(quick=120, thorough=1500, cpu=120, need={'equivalent_pairs': 60})
def equivalence(ctx):
    """Markov-equivalent DAGs get the same total score; the order of records and the coding of values do not matter"""
    from cdmir.utils.local_score import BDeuScore, BICScore
    rng = ctx.rng
    disc = rng.random() < .4
    if disc:
        V, codes, card, kind = gen_disc(rng)
        d = codes.shape[1]
        data, alt = codes, np.column_stack([rng.permutation(40)[codes[:, j]] for j in range(d)])
        mk = lambda D: BDeuScore(D, sample_prior=3)
    else:
        data = gen_cont(rng)
        d = data.shape[1]
        alt = data * np.exp(rng.normal(size=d)) * rng.choice([-1, 1], d) + rng.normal(size=d)
        mk = lambda D: BICScore(D, lambda_value=1.5)
    alt = alt[rng.permutation(len(alt))]
    s, s2 = mk(data), mk(alt)
    edges = G.random_dag(rng, d, float(rng.choice([.3, .5, .8])))
    t = total(s, edges, d)
    ctx.close(total(s2, edges, d), t, 'coding-or-order', f'disc={disc} {edges}', 1e-7, 1e-6)
    cls = equivalents(edges, d)
    for e in cls:
        if set(e) != set(edges):
            ctx.event('equivalent_pairs')
            if not ctx.close(total(s, e, d), t, 'equivalence', f'disc={disc} {edges} vs {e}', 1e-7, 1e-6):
                break
    ctx.case(disc, ctx.case_seed, tuple(sorted(edges)))


def equivalents(edges, d, limit=12):
    """DAGs reached by covered-edge reversals (all are Markov equivalent)."""
    seen = {frozenset(edges)}
    todo = [frozenset(edges)]
    while todo and len(seen) < limit:
        e = todo.pop()
        pa = {j: {a for a, b in e if b == j} for j in range(d)}
        for a, b in sorted(e):
            if pa[b] == pa[a] | {a}:
                f = frozenset((e - {(a, b)}) | {(b, a)})
                if f not in seen:
                    seen.add(f)
                    todo.append(f)
    return [sorted(x) for x in seen]


@monitor(quick=200, thorough=3000, cpu=30, need={'queries': 1000})
def memo(ctx):
    """a user-defined score behind the caching base class always answers for the parents of the current query"""
    from cdmir.utils.local_score import BaseLocalScoreFunction
    rng = ctx.rng
    d = int(rng.choice([3, 5, 12, 120]))
    X = rng.normal(size=(5, d))

    class S(BaseLocalScoreFunction):
        def _score_function(self, i, parent_i):
            return ('s', i, frozenset(int(p) for p in parent_i))

    s = S(pd.DataFrame(X) if rng.random() < .5 else X)
    qs = queries(rng, d, 30, 11)
    if d > 10:                                     # sets whose numbers read alike when written side by side
        t = [int(v) for v in rng.integers(1, 3, size=4)]
        for f in ({t[0], 10 * t[1] + t[2]}, {10 * t[0] + t[1], t[2]}, {t[0], t[1], t[2]}, {10 * t[1] + t[0]}, {t[1], t[0]},
                  {10 * t[0] + t[1]}):
            qs += [(i, frozenset(v for v in f if v < d and v != i)) for i in (0, 1, 10 + t[3] % 2)]
    for i, pa in qs:
        ctx.event('queries')
        got = s(i, parents_as(rng, pa))
        ctx.check(got == ('s', i, pa), 'memo', lambda: f'i={i} parents={sorted(pa)} answered {got}')
    ctx.case('memo', ctx.case_seed)
