"""pdag2dag: consistent extensions."""
from itertools import combinations

from vlib import graphs as G
from vlib.core import monitor

QUICK = 4      # times the quick cases of each monitor
RULE = ('One case = one PDAG: the CPDAG of a random DAG, such a CPDAG with extra background orientations, the pattern '
        'alone, or an arbitrary PDAG whose extendability is decided by brute force. Distinct = (directed, undirected) '
        'edge sets; non-trivial = at least one undirected edge.')
ASSUMPTIONS = ['up to 8 nodes']


def extend(ctx, names, D, U, vs, tag):
    from cdmir.graph import DiGraph
    from cdmir.graph.pdag2dag import pdag2dag
    g = G.build_pdag(names, D, U, ctx.rng)
    r = pdag2dag(g)
    nd, nu = G.named(names, D, U)
    ctx.check(G.read_graph(g) == (nd, nu, []) and list(g.nodes) == list(names), 'argument-changed', tag)
    ctx.check(isinstance(r, DiGraph) and list(r.nodes) == list(names), 'type-or-nodes', tag)
    d, u, o = G.read_graph(r)
    ctx.event('extensions')
    ctx.check(not u and not o, 'not-directed', lambda: f'{tag()}: {u} {o}')
    ctx.check({frozenset(x) for x in d} == {frozenset(x) for x in nd} | nu, 'skeleton', lambda: f'{tag()}: {d}')
    ctx.check(nd <= d, 'directed-edge-lost', lambda: f'{tag()}: {nd - d}')
    ctx.check(G.acyclic(names, d), 'cyclic', lambda: f'{tag()}: {d}')
    got = G.v_structures(names, d)
    want = {(frozenset(names[i] for i in p), names[c]) for p, c in vs}
    ctx.check(got == want, 'v-structures', lambda: f'{tag()}: added {got - want}, lost {want - got}')
    return r


@monitor(quick=3000, thorough=8000, cpu=60, need={'extensions': 5000})
def extendable(ctx):
    """CPDAGs, CPDAGs with background knowledge and patterns of random DAGs"""
    rng = ctx.rng
    n = int(rng.integers(1, 8 if not ctx.thorough else 9))
    names = G.labels(rng, n)
    e = G.random_dag(rng, n)
    vs = G.v_structures(range(n), e)
    D, U = G.cpdag_chickering(range(n), e)
    tag = lambda: f'n={n} names {names!r} directed {sorted(D)} undirected {sorted(map(sorted, U))}'
    extend(ctx, names, D, U, vs, tag)
    if U:
        ctx.case(sorted(D), sorted(map(sorted, U)))
    und = sorted(U, key=sorted)
    take = {s for s in und if rng.random() < .4}
    know = {x for x in e if frozenset(x) in take}
    D2, U2 = set(D) | know, set(U) - take
    extend(ctx, names, D2, U2, vs, lambda: f'names {names!r} directed {sorted(D2)} undirected {sorted(map(sorted, U2))}')
    pat = {(p, c) for pr, c in vs for p in pr}
    U3 = G.skeleton(e) - G.skeleton(pat)
    extend(ctx, names, pat, U3, vs, lambda: f'names {names!r} pattern {sorted(pat)} undirected {sorted(map(sorted, U3))}')


@monitor(quick=600, thorough=2500, cpu=60, need={'roundtrips': 100})
def roundtrip(ctx):
    """dag2cpdag(pdag2dag(P)) == P for completed PDAGs"""
    from cdmir.graph.dag2cpdag import dag2cpdag
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    names = G.labels(rng, n)
    e = G.random_dag(rng, n)
    D, U = G.cpdag_chickering(range(n), e)
    tag = lambda: f'names {names!r} directed {sorted(D)} undirected {sorted(map(sorted, U))}'
    r = extend(ctx, names, D, U, G.v_structures(range(n), e), tag)
    d, u, o = G.read_graph(dag2cpdag(r))
    ctx.event('roundtrips')
    ctx.check((d, u) == G.named(names, D, U), 'roundtrip', lambda: f'{tag()}: back as {d} {u}')
    ctx.case(sorted(D), sorted(map(sorted, U)))


@monitor(quick=3000, thorough=8000, cpu=30, need={'arbitrary': 300, 'refused': 20, 'extended': 20})
def arbitrary(ctx):
    """any PDAG: an extension is returned iff one exists, otherwise the call ends with an error"""
    from cdmir.graph.pdag2dag import pdag2dag
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    names = G.labels(rng, n)
    D, U = set(), set()
    p = float(rng.choice([.3, .5, .8]))
    pd = float(rng.choice([.1, .3, .6]))
    for a, b in combinations(range(n), 2):
        if rng.random() < p:
            if rng.random() < pd:
                D.add((a, b) if rng.random() < .5 else (b, a))
            else:
                U.add(frozenset((a, b)))
    exts = G.consistent_extensions(range(n), D, [tuple(s) for s in U], limit=1)
    tag = lambda: f'n={n} names {names!r} directed {sorted(D)} undirected {sorted(map(sorted, U))}'
    ctx.event('arbitrary')
    if U:
        ctx.case(sorted(D), sorted(map(sorted, U)))
    if exts:
        ctx.event('extended')
        extend(ctx, names, D, U, G.v_structures_of_pdag(range(n), D, G.skeleton(D) | U), tag)
    else:
        ctx.event('refused')
        g = G.build_pdag(names, D, U, rng)
        ctx.raises(lambda: sorted(G.read_graph(pdag2dag(g))[0], key=repr), 'no-extension-accepted', tag())
