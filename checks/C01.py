"""PC with a d-separation oracle, watched through the queries it asks."""
import copy

import numpy as np

from vlib import graphs as G
from vlib.core import monitor

QUICK = 5      # times the quick cases of each monitor
RULE = ('One case = one DAG (all DAGs on up to 4 nodes, sampled on 5-9), one labelling, one input form (ndarray or '
        'DataFrame, explicit or default variable names) and one adjacency search; the fitted graph is compared with '
        'the CPDAG and every oracle query is logged. Distinct = (edges, form, search); non-trivial = >= 1 edge.')
ASSUMPTIONS = ['the independence test is the exact d-separation oracle']


def oracle_class(log):
    from cdmir.utils.independence import Dsep

    class Logged(Dsep):
        def test(self, x, y, z=None):
            r = super().test(x, y, z)
            log.append((x, y, tuple(z) if z is not None else (), r[0]))
            return r

    return Logged


def fit(ctx, pc, names, form, dag, log):
    """One fit in a given input form; returns the variable names the result must use."""
    import pandas as pd
    n = len(names)
    X = ctx.rng.normal(size=(4, n))
    cls = oracle_class(log)
    keep = X.copy()
    if form == 'ndarray+names':
        pc.fit(X, var_names=names, indep_cls=cls, true_graph=dag)
    elif form == 'positional':
        pc.fit(X, names, cls, dag)
    elif form == 'ndarray':
        pc.fit(X, indep_cls=cls, true_graph=dag)
    elif form == 'dataframe':
        pc.fit(pd.DataFrame(X, columns=pd.Index(names, tupleize_cols=False)), indep_cls=cls, true_graph=dag)
    else:
        pc.fit(pd.DataFrame(X, columns=[f'c{i}' for i in range(n)]), var_names=names, indep_cls=cls, true_graph=dag)
    ctx.check((X == keep).all(), 'data-changed', form)


def verdict(ctx, pc, names, e, log, tag):
    from cdmir.graph import PDAG
    D, U = G.cpdag_chickering(range(len(names)), e)
    wd, wu = G.named(names, D, U)
    d, u, o = G.read_graph(pc.causal_graph)
    ne = [(names[a], names[b]) for a, b in e]
    ctx.event('fits')
    ctx.event('queries', len(log))
    ctx.check(isinstance(pc.causal_graph, PDAG) and list(pc.causal_graph.nodes) == list(names), 'nodes',
              lambda: f'{tag}: {list(pc.causal_graph.nodes)!r}')
    ctx.check(not o and (d, u) == (wd, wu), 'not-the-cpdag',
              lambda: f'{tag}: directed {d} undirected {u}; CPDAG {wd} {wu}')
    sd, su, so = G.read_graph(pc.skeleton)
    ctx.check(not sd and not so and su == G.skeleton(ne) and list(pc.skeleton.nodes) == list(names), 'skeleton',
              lambda: f'{tag}: {sd} {su}')
    sk = G.skeleton(ne)
    ch = {v: {w for a, w in ne if a == v} for v in names}
    pa = G.parents(names, ne)
    for i, x in enumerate(names):
        for y in names[i + 1:]:
            if frozenset((x, y)) in sk:
                continue
            s = set(pc.sep_set[(x, y)])
            ctx.check(s == set(pc.sep_set[(y, x)]), 'sep_set/asymmetric', f'{tag}: {x!r},{y!r}')
            ctx.check(x not in s and y not in s and s <= set(names), 'sep_set/members', f'{tag}: {x!r},{y!r}: {s!r}')
            for w in names:
                if frozenset((x, w)) in sk and frozenset((y, w)) in sk:
                    coll = x in pa[w] and y in pa[w]
                    ctx.check((w in s) != coll, 'sep_set/collider', f'{tag}: {x!r},{y!r}: {s!r}, triple at {w!r}')
            ctx.check(any({a, b} == {x, y} and p >= pc.alpha for a, b, z, p in log), 'removed-without-test',
                      lambda: f'{tag}: {x!r},{y!r} removed, no accepted query in the log')


def run(ctx, n, e, names, tag):
    from cdmir.discovery.constraint.pc import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    form = ['ndarray+names', 'ndarray', 'dataframe', 'dataframe+names', 'positional'][int(ctx.rng.integers(5))]
    if form == 'ndarray':
        names = list(range(n))
    search, fast = [(adjacency_search, 0), (fast_adjacency_search, 1)][int(ctx.rng.integers(2))]
    alpha = float(ctx.rng.choice([0.01, 0.05, 0.5, 1.0]))
    dag = G.build_dag(names, e)
    kw = {} if not fast and ctx.rng.random() < .5 else dict(adjacency_search_method=search)
    pc = PC(alpha=alpha, **kw)
    log = []
    fit(ctx, pc, names, form, dag, log)
    tag = f'{form} fast={fast} alpha={alpha}: {G.show(names, [(names[a], names[b]) for a, b in e])} on {names!r}'
    verdict(ctx, pc, names, e, log, tag)
    ctx.event('form/' + form)
    ctx.event('fast' if fast else 'default_search')
    if e:
        ctx.case(n, e, form, fast)
    return pc, names


@monitor(quick=572, thorough=572, need={'fits': 570, 'form/dataframe': 20, 'fast': 100, 'queries': 3000})
def exhaustive(ctx):
    """every DAG on 1-4 nodes"""
    global _ALL
    try:
        alld = _ALL
    except NameError:
        alld = _ALL = [(n, e) for n in (1, 2, 3, 4) for e in G.all_dags(n)]
    n, e = alld[ctx.index]
    run(ctx, n, e, G.labels(ctx.rng, n), '')


@monitor(quick=250, thorough=6000, cpu=120, need={'fits': 250, 'refits': 50})
def sampled(ctx):
    """random DAGs on 5-7 nodes (9 in the thorough tier); every third object is fitted again on another problem"""
    from cdmir.discovery.constraint.pc import PC
    from cdmir.utils.independence import Dsep
    rng = ctx.rng
    n = int(rng.integers(5, 8)) if not ctx.thorough else int(rng.integers(5, 10))
    e = G.random_dag(rng, n, float(rng.choice([.2, .35, .5, .8])))
    pc, names = run(ctx, n, e, G.labels(rng, n), '')
    if ctx.index % 3 == 0:
        first = (copy.deepcopy(pc.causal_graph), pc.causal_graph)
        snap = G.read_graph(pc.causal_graph)
        m = int(rng.integers(3, 7))
        e2 = G.random_dag(rng, m)
        names2 = G.labels(rng, m)
        log = []
        pc.set_alpha(0.05)
        fit(ctx, pc, names2, 'ndarray+names', G.build_dag(names2, e2), log)
        verdict(ctx, pc, names2, e2, log, f'refit: {G.show(names2, [(names2[a], names2[b]) for a, b in e2])}')
        ctx.check(G.read_graph(first[1]) == snap, 'refit-changes-old-result', 'earlier causal_graph was altered')
        pc = PC(verbose=bool(rng.integers(2)))
        for nm, ed in ((names2, e2), (names2, G.random_dag(rng, m)), (names, e)):
            pc.fit(np.zeros((3, len(nm))), var_names=nm, indep_cls=Dsep, true_graph=G.build_dag(nm, ed))
            D, U = G.cpdag_chickering(range(len(nm)), ed)
            d, u, o = G.read_graph(pc.causal_graph)
            ctx.check(not o and (d, u) == G.named(nm, D, U), 'refit/not-the-cpdag',
                      lambda: f'{G.show(nm, [(nm[a], nm[b]) for a, b in ed])}: directed {d} undirected {u}')
        ctx.event('refits')


@monitor(quick=40, thorough=400, need={'refused': 40})
def interface(ctx):
    """refusals and settings: wrong data types, wrong name counts, foreign test classes; alpha/verbose accessors"""
    from cdmir.discovery.constraint.pc import PC
    from cdmir.utils.independence import Dsep, FisherZ
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    X = rng.normal(size=(20, n))
    ctx.event('refused')
    ctx.case('interface', n, ctx.index % 4)
    ctx.raises(lambda: PC().fit(X.tolist(), indep_cls=FisherZ), 'interface/list-data', 'list data')
    ctx.raises(lambda: PC().fit(X, var_names=list(range(n + 1)), indep_cls=FisherZ), 'interface/name-count', 'names')
    ctx.raises(lambda: PC().fit(X, indep_cls=dict), 'interface/test-class', 'dict as test class')
    p = PC(alpha=.1, verbose=False)
    a = float(rng.random())
    p.set_alpha(a)
    p.set_verbose(True)
    ctx.check(p.get_alpha() == a == p.alpha and p.get_verbose() is True, 'interface/accessors', '')


@monitor(quick=60, thorough=1500, cpu=60, need={'frames': 60, 'removed': 20})
def data_frames(ctx):
    """which column is which variable: PC on a data frame (columns in any order, any names) finds over the data what
    PC over the bare array finds, name for column"""
    import pandas as pd
    from cdmir.discovery.constraint.pc import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    from cdmir.utils.independence import FisherZ
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    X = rng.normal(size=(int(rng.choice([60, 300])), n))
    for a, b in G.random_dag(rng, n):
        X[:, b] += X[:, a] * float(rng.choice([-1.5, -.8, .8, 1.5]))
    s = (adjacency_search, fast_adjacency_search)[int(rng.integers(2))]
    alpha = float(rng.choice([.01, .05, .2]))
    bare = PC(alpha=alpha, adjacency_search_method=s)
    bare.fit(X.copy(), indep_cls=FisherZ)
    names = G.labels(rng, n, [None, 'str', 'str', 'shuffled'][int(rng.integers(4))])
    cols = pd.Index(names, tupleize_cols=False)
    pc = PC(alpha=alpha, adjacency_search_method=s)
    form = int(rng.integers(3))
    if form == 0:
        pc.fit(pd.DataFrame(X, columns=cols), indep_cls=FisherZ)
    elif form == 1:
        pc.fit(pd.DataFrame(X, columns=cols), var_names=names, indep_cls=FisherZ)
    else:
        pc.fit(X, var_names=names, indep_cls=FisherZ)
    # adjacencies and separating sets only: with contradictory test answers the orientation may follow the visiting order
    want = {frozenset(names[v] for v in p) for p in G.skeleton([e[:2] for e in bare.causal_graph.edges])}
    got = G.skeleton([e[:2] for e in pc.causal_graph.edges])
    ctx.event('frames')
    ctx.event('removed', n * (n - 1) // 2 - len(want))
    ctx.case('frames', ctx.case_seed, form)
    ctx.check(got == want and list(pc.causal_graph.nodes) == list(names), 'frames/columns-and-names',
              lambda: f'form {form} names {names!r}: {got}, the bare array gives {want}')
    for a in range(n):
        for b in range(n):
            if a != b and frozenset((names[a], names[b])) not in want:
                ctx.check(set(pc.sep_set[(names[a], names[b])]) == {names[v] for v in bare.sep_set[(a, b)]},
                          'frames/sep-sets', lambda: f'form {form} names {names!r}: pair {a},{b}')
