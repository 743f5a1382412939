"""Graph metrics against counting definitions."""
from itertools import combinations, permutations

import numpy as np

from vlib import graphs as G
from vlib.core import monitor

RULE = ('One case = a pair of graphs of one class (Graph with any marks, DiGraph, PDAG) on the same nodes, the second a '
        'random edit of the first or unrelated, entered in different edge orders and orientations; or a pair of weight '
        'matrices. All metrics are compared with counts over node pairs. Distinct = the pair of edge sets; non-trivial = '
        'the graphs differ and share an edge in some cases.')
ASSUMPTIONS = ['at least two nodes', 'a metric with a zero denominator is reported as 0']


def random_marks(rng, kind):
    from cdmir.graph import Mark
    if kind == 'DiGraph':
        return [(Mark.Tail, Mark.Arrow), (Mark.Arrow, Mark.Tail)][int(rng.integers(2))]
    if kind == 'PDAG':
        return [(Mark.Tail, Mark.Arrow), (Mark.Arrow, Mark.Tail), (Mark.Tail, Mark.Tail)][int(rng.integers(3))]
    ms = [Mark.Tail, Mark.Arrow, Mark.Circle]
    return ms[int(rng.integers(3))], ms[int(rng.integers(3))]


def build(rng, kind, names, es):
    import cdmir.graph as C
    g = getattr(C, kind)(list(names))
    keys = list(es)
    for i in (rng.permutation(len(keys)) if keys else []):
        (u, v), (mu, mv) = keys[i], es[keys[i]]
        if mu > mv if kind == 'DiGraph' else rng.random() < .5:
            g.add_edge(C.Edge(names[v], names[u], mv, mu))
        else:
            g.add_edge(C.Edge(names[u], names[v], mu, mv))
    return g


def prf(t, e):
    tp = sum(a and b for a, b in zip(t, e))
    p = tp / sum(e) if sum(e) else 0.
    r = tp / sum(t) if sum(t) else 0.
    return {'precision': p, 'recall': r, 'f1': 2 * tp / (sum(t) + sum(e)) if sum(t) + sum(e) else 0.}


def same(ctx, got, want, mech, tag):
    if not ctx.check(set(got) == set(want), mech + '/keys', lambda: f'{tag}: {got}'):
        return
    for k in want:
        ctx.close(got[k], want[k], f'{mech}/{k}', tag)


@monitor(quick=1000, thorough=20000, cpu=60, need={'pairs': 500, 'different': 300, 'identical': 50})
def metrics(ctx):
    """skeleton / arrow / directed-edge precision, recall and f1, shd and graph_equal against counts over node pairs"""
    from cdmir.graph import Mark
    from cdmir.utils.metrics import (arrow_evaluation, directed_edge_evaluation, graph_equal, shd,
                                     skeleton_evaluation)
    rng = ctx.rng
    kind = ['DiGraph', 'PDAG', 'Graph'][int(rng.integers(3))]
    n = int(rng.integers(2, 9))
    names = G.labels(rng, n)
    prs = list(combinations(range(n), 2))
    p = float(rng.choice([0, .2, .5, .9]))
    A = {e: random_marks(rng, kind) for e in prs if rng.random() < p}
    r = rng.random()
    if r < .15:
        B = dict(A)
    elif r < .75:
        B = dict(A)
        for e in prs:
            q = rng.random()
            if q < .12:
                B.pop(e, None)
            elif q < .3:
                B[e] = random_marks(rng, kind)
            elif q < .4 and e in B:
                B[e] = B[e][::-1]
    else:
        B = {e: random_marks(rng, kind) for e in prs if rng.random() < p}
    a, b = build(rng, kind, names, A), build(rng, kind, names, B)
    tag = lambda: f'{kind} {names} true={A} est={B}'
    ctx.event('pairs')
    ctx.event('identical' if A == B else 'different')

    def mark_at(E, u, v):
        """mark at v of the edge u, v"""
        if (u, v) in E:
            return E[u, v][1]
        if (v, u) in E:
            return E[v, u][0]
        return None

    arrow = lambda E: [mark_at(E, u, v) == Mark.Arrow for u, v in permutations(range(n), 2)]
    direct = lambda E: [mark_at(E, u, v) == Mark.Arrow and mark_at(E, v, u) == Mark.Tail
                        for u, v in permutations(range(n), 2)]
    for x, y, X, Y, t in ((a, b, A, B, 'ab'), (b, a, B, A, 'ba')):
        same(ctx, skeleton_evaluation(x, y), prf([e in X for e in prs], [e in Y for e in prs]), 'skeleton', tag)
        same(ctx, arrow_evaluation(x, y), prf(arrow(X), arrow(Y)), 'arrow', tag)
        same(ctx, directed_edge_evaluation(x, y), prf(direct(X), direct(Y)), 'directed', tag)
        ctx.check(shd(x, y) == sum(X.get(e) != Y.get(e) for e in prs), 'shd', tag)
        ctx.check(bool(graph_equal(x, y)) == (X == Y), 'graph_equal', tag)
    ctx.check(G.read_graph(a) == G.read_graph(build(rng, kind, names, A)) if kind != 'Graph' else True, 'changed', tag)
    # mismatched arguments are refused
    if n > 1:
        other = ['PDAG', 'DiGraph'][kind == 'PDAG']
        o = build(rng, other, names, {})
        perm = list(names[1:]) + [names[0]]
        q = build(rng, kind, perm, {})
        extra = build(rng, kind, list(names) + ['__extra__'], {})
        for f in (skeleton_evaluation, arrow_evaluation, directed_edge_evaluation, shd, graph_equal):
            for w, z in (('class', o), ('order', q), ('nodes', extra)):
                ctx.raises(lambda: f(a, z), f'accepted/{w}', f'{f.__name__} {w}', AssertionError)
    ctx.case(kind, n, tuple(sorted(A.items())), tuple(sorted(B.items())))


@monitor(quick=600, thorough=10000, cpu=60, need={'matrices': 200, 'graphs': 100})
def performance(ctx):
    """get_performance on weight matrices, thresholds, diagonals and graphs"""
    from cdmir.utils.metrics.graph_evaluation import get_performance
    rng = ctx.rng
    n = int(rng.integers(2, 9)) if rng.random() < .8 else int(rng.integers(9, 16))
    kw = {}
    if rng.random() < .5:
        kw['threshold'] = float(rng.choice([0, 1e-8, .1, .5, 1.]))
    if rng.random() < .5:
        kw['drop_diag'] = bool(rng.random() < .5)
    thr, drop = kw.get('threshold', 0), kw.get('drop_diag', True)
    real = (rng.random((n, n)) < rng.choice([.1, .4, .8])).astype([int, float][int(rng.integers(2))])
    W = rng.choice([0., .1, .3, .5, .7, 1., 2.], size=(n, n)) * rng.choice([-1, 1], size=(n, n))
    if rng.random() < .2:
        W = W * 10. ** rng.integers(-12, 4, size=(n, n))
    W = np.where(rng.random((n, n)) < .3, real, W)
    if rng.random() < .2:
        W = rng.integers(-3, 4, size=(n, n)) * (rng.random((n, n)) < .6)
    fitted, truth = W, real
    if rng.random() < .4:
        names = G.labels(rng, n)
        kinds = rng.integers(3)
        if kinds != 1:
            e = G.random_dag(rng, n, .5)
            real = np.zeros((n, n), int)
            for u, v in e:
                real[u, v] = 1
            truth = G.build_dag(names, e)
        if kinds != 0:
            e = G.random_dag(rng, n, .5)
            W = np.zeros((n, n))
            for u, v in e:
                W[u, v] = 1
            fitted = G.build_dag(names, e)
        ctx.event('graphs')
    keep = [np.copy(x) if isinstance(x, np.ndarray) else None for x in (fitted, truth)]
    r = get_performance(fitted, truth, **kw)
    ctx.event('matrices')
    off = np.ones((n, n), bool)
    if drop:
        np.fill_diagonal(off, False)
    w = prf([bool(x) for x in (real != 0)[off]], [bool(x) for x in (np.abs(W) > thr)[off]])
    if not drop or thr >= 0:
        tag = f'n={n} {kw} fitted={W.tolist()} real={real.tolist()}'
        ctx.check(len(r) == 1, 'performance/rows', tag)
        row = r.iloc[0]
        ctx.close(row['F1'], w['f1'], 'performance/f1', tag)
        ctx.close(row['Precision'], w['precision'], 'performance/precision', tag)
        ctx.close(row['Recall'], w['recall'], 'performance/recall', tag)
        ctx.close(row['threshold'], thr, 'performance/threshold', tag)
    for x, k in zip((fitted, truth), keep):
        if k is not None:
            ctx.check(np.array_equal(x, k), 'performance/argument-changed', 'matrix')
    ctx.case(n, tuple(kw.items()), ctx.case_seed)
