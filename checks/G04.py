"""dag2cpdag against the Markov equivalence class."""
from vlib import graphs as G
from vlib.core import monitor

QUICK = 10      # times the quick cases of each monitor
RULE = ('One case = one DAG (every DAG on up to 4 nodes; sampled DAGs on 5-8 nodes, any labels, any node order). The '
        'returned graph is compared with the union of all DAGs of its Markov equivalence class, enumerated by brute '
        'force, and on larger graphs with Chickering\'s labelling. Distinct = edge list; non-trivial = >= 1 edge.')
ASSUMPTIONS = ['up to 8 nodes (the conversion is exponential in the number of nodes)']


def verdict(ctx, names, e, g, D, U, tag):
    d, u, o = G.read_graph(g)
    wd, wu = G.named(names, D, U)
    ctx.event('conversions')
    ctx.event('edges_directed', len(wd))
    ctx.event('edges_undirected', len(wu))
    ctx.check(not o, 'marks', lambda: f'{tag}: edges with other marks {o}')
    ctx.check(list(g.nodes) == list(names), 'nodes', lambda: f'{tag}: {list(g.nodes)!r}')
    sk = {frozenset(x) for x in d} | u
    wsk = {frozenset(x) for x in wd} | wu
    if ctx.check(sk == wsk, 'skeleton', lambda: f'{tag}: missing {wsk - sk}, extra {sk - wsk}'):
        ctx.check(not (d - wd), 'over-oriented', lambda: f'{tag}: directed though reversible {d - wd}')
        ctx.check(not (wd - d), 'under-oriented', lambda: f'{tag}: not directed though compelled {wd - d}')


def convert(ctx, names, e, tag):
    from cdmir.graph import PDAG
    from cdmir.graph.dag2cpdag import dag2cpdag
    dag = G.build_dag(names, e)
    c = dag2cpdag(dag)
    ctx.check(isinstance(c, PDAG), 'type', f'{tag}: {type(c)}')
    ctx.check(G.read_graph(dag)[0] == G.named(names, e)[0] and list(dag.nodes) == list(names), 'argument-changed', tag)
    return c


@monitor(quick=572, thorough=572, need={'conversions': 570})
def exhaustive(ctx):
    """every DAG on 1-4 nodes; additionally every DAG of the class must give the same graph"""
    global _ALL
    try:
        alld = _ALL
    except NameError:
        alld = _ALL = [(n, e) for n in (1, 2, 3, 4) for e in G.all_dags(n)]
    n, e = alld[ctx.index]
    names = G.labels(ctx.rng, n)
    D, U, exts = G.cpdag_brute(range(n), e)
    tag = G.show(names, {(names[u], names[v]) for u, v in e})
    verdict(ctx, names, e, convert(ctx, names, e, tag), D, U, tag)
    if e:
        ctx.case(n, e)


@monitor(quick=600, thorough=3000, cpu=120, need={'conversions': 200, 'edges_undirected': 100, 'class_members': 60})
def sampled(ctx):
    """5-6 nodes (7-8 in the thorough tier), brute-force class; a second member of the class gives the same graph"""
    rng = ctx.rng
    n = int(rng.integers(5, 7)) if not ctx.thorough or ctx.index % 40 else int(rng.integers(7, 9))
    names = G.labels(rng, n)
    e = G.random_dag(rng, n, float(rng.choice([.25, .4, .6, .8])))
    tag = G.show(names, {(names[u], names[v]) for u, v in e})
    if len(e) <= 12:
        D, U, exts = G.cpdag_brute(range(n), e)
    else:
        (D, U), exts = G.cpdag_chickering(range(n), e), []
    verdict(ctx, names, e, convert(ctx, names, e, tag), D, U, tag)
    if len(exts) > 1 and n < 7:
        other = list(exts[int(rng.integers(len(exts)))])
        verdict(ctx, names, other, convert(ctx, names, other, tag), D, U, tag + ' (another member)')
        ctx.event('class_members')
    p = [int(i) for i in rng.permutation(n)]
    if n < 7:
        nm = [names[i] for i in p]
        inv = {names[i]: k for k, i in enumerate(p)}
        e2 = [(inv[names[u]], inv[names[v]]) for u, v in e]
        D2, U2 = {(inv[names[u]], inv[names[v]]) for u, v in D}, {frozenset(inv[names[i]] for i in s) for s in U}
        verdict(ctx, nm, e2, convert(ctx, nm, e2, tag), D2, U2, tag + ' (nodes reordered)')
    if e:
        ctx.case(n, e)


@monitor(quick=4, thorough=60, cpu=200, need={'conversions': 20, 'wide_separators': 4})
def dense(ctx):
    """7-8 nodes, nearly complete: the only sets separating a non-adjacent pair have five or more nodes; also trees and
    stars of that size"""
    rng = ctx.rng
    n = int(rng.integers(7, 9))
    order = [int(i) for i in rng.permutation(n)]
    e = [(order[i], order[j]) for i in range(n) for j in range(i + 1, n)]
    k = int(rng.integers(4))
    if k < 3:
        # leave out one or two late pairs, so that the shared parents are many
        e.remove((order[n - 2], order[n - 1]))
        if k == 1:
            e.remove((order[n - 3], order[n - 2] if rng.random() < .5 else order[n - 1]))
        elif k == 2:
            e.remove((order[0], order[int(rng.integers(1, n - 1))]))
    else:
        e = [(order[int(rng.integers(0, i))], order[i]) for i in range(1, n)]
    names = G.labels(rng, n)
    sk = G.skeleton(e)
    pa = G.parents(range(n), e)
    for i in range(n):
        for j in range(i):
            if frozenset((i, j)) not in sk:
                ctx.event('wide_separators', int(min(len(pa[i]), len(pa[j])) >= 5))
    D, U = G.cpdag_chickering(range(n), e)
    tag = G.show(names, {(names[u], names[v]) for u, v in e})
    verdict(ctx, names, e, convert(ctx, names, e, tag), D, U, tag)
    ctx.case(n, e)
