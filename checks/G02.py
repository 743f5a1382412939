"""Ancestry and order queries of DiGraph against set-based reference definitions, along edit histories."""
from vlib import graphs as G
from vlib.core import monitor

QUICK = 6      # times the quick cases of each monitor
RULE = ('One case = one directed graph (acyclic or cyclic, any node labels) reached through a history of insertions '
        'and removals; parents, children, degrees, topological order and acyclicity are compared with reference '
        'definitions after each edit batch. Distinct = (nodes, edge set); non-trivial = at least one edge.')
ASSUMPTIONS = ['no self-loops']


def observe(ctx, g, nodes, edges, tag):
    pa = G.parents(nodes, edges)
    ch = {v: {w for w in nodes if v in pa[w]} for v in nodes}
    for v in nodes:
        p, c = list(g.get_parents(v)), list(g.get_children(v))
        ctx.check(len(p) == len(set(p)) and set(p) == pa[v], 'parents', lambda: f'{tag}: parents of {v!r} = {p!r}')
        ctx.check(len(c) == len(set(c)) and set(c) == ch[v], 'children', lambda: f'{tag}: children of {v!r} = {c!r}')
        ctx.check(g.in_degree(v) == len(pa[v]), 'in_degree', f'{tag}: {v!r}')
        ctx.check(g.out_degree(v) == len(ch[v]), 'out_degree', f'{tag}: {v!r}')
    order = list(g.topo_sort())
    ctx.event('orders')
    acyc = G.acyclic(nodes, edges)
    ctx.event('acyclic' if acyc else 'cyclic')
    ctx.check(bool(g.is_acyclic()) == acyc, 'is_acyclic', f'{tag}: expected {acyc}')
    ctx.check(len(order) == len(set(order)) and set(order) <= set(nodes), 'topo/nodes', lambda: f'{tag}: {order!r}')
    pos = {v: i for i, v in enumerate(order)}
    ctx.check(all(u in pos and pos[u] < pos[v] for u, v in edges if v in pos), 'topo/order',
              lambda: f'{tag}: {order!r} does not list parents before children')
    if acyc:
        ctx.check(set(order) == set(nodes), 'topo/complete', lambda: f'{tag}: {order!r}')
    else:
        # exactly the nodes with no ancestor on a cycle can be sorted
        free, left = set(), set(nodes)
        while True:
            src = {v for v in left if not (pa[v] & left)}
            if not src:
                break
            free |= src
            left -= src
        ctx.check(set(order) == free, 'topo/cyclic-part', lambda: f'{tag}: {order!r} expected exactly {free!r}')


@monitor(quick=5000, thorough=20000, need={'orders': 800, 'acyclic': 300, 'cyclic': 60})
def ancestry(ctx):
    """parents / children / degrees / topological order / acyclicity along edit histories"""
    from cdmir.graph import DiGraph, Edge, Mark
    rng = ctx.rng
    n = int(rng.integers(1, 11))
    names = G.labels(rng, n)
    g = DiGraph(names)
    nodes, edges = list(names), set()
    allow_cycles = rng.random() < .7
    order = rng.permutation(n)
    rank = {names[int(i)]: k for k, i in enumerate(order)}
    for batch in range(int(rng.integers(2, 5))):
        for _ in range(int(rng.integers(1, 2 * n + 1))):
            r = rng.random()
            if r < .72 and len(nodes) > 1:
                u, v = (nodes[int(i)] for i in rng.choice(len(nodes), 2, replace=False))
                if not allow_cycles and rank[u] > rank[v]:
                    u, v = v, u
                if (u, v) in edges:
                    continue
                if (v, u) in edges:
                    g.add_edge(Edge(u, v), overwrite=True)
                    edges.discard((v, u))
                else:
                    g.add_edge(Edge(u, v, Mark.Tail, Mark.Arrow))
                edges.add((u, v))
            elif r < .9 and edges:
                u, v = sorted(edges, key=repr)[int(rng.integers(len(edges)))]
                g.remove_edge(*((u, v) if rng.random() < .5 else (v, u)))
                edges.discard((u, v))
            elif r >= .96 and len(nodes) > 2:
                x = nodes[int(rng.integers(len(nodes)))]
                g.remove_node(x)
                nodes.remove(x)
                edges = {e for e in edges if x not in e}
        tag = f'nodes {nodes!r} edges {G.show(names, edges)}'
        observe(ctx, g, nodes, edges, tag)
        if edges:
            ctx.case(nodes, sorted(edges, key=repr))


@monitor(quick=100, thorough=300, need={'orders': 30})
def large(ctx):
    """chains, stars and random DAGs with up to 200 nodes"""
    rng = ctx.rng
    n = int(rng.integers(30, 120 if not ctx.thorough else 200))
    names = G.labels(rng, n, ['int', 'shuffled', 'tuple', 'offset'][ctx.index % 4])
    k = int(rng.integers(3))
    perm = [int(i) for i in rng.permutation(n)]
    if k == 0:
        e = [(perm[i], perm[i + 1]) for i in range(n - 1)]
    elif k == 1:
        e = [(perm[0], perm[i]) for i in range(1, n - 1)] + [(perm[i], perm[n - 1]) for i in range(1, n - 1)]
    else:
        e = G.random_dag(rng, n, 2.0 / n)
    if rng.random() < .3:
        e = e + [(e[-1][1], e[0][0])] if (e[-1][1], e[0][0]) not in e and (e[0][0], e[-1][1]) not in e and \
            e[-1][1] != e[0][0] else e
    g = G.build_dag(names, e)
    ne = {(names[u], names[v]) for u, v in e}
    ctx.case(n, k, len(e), e[:5])
    observe(ctx, g, names, ne, f'{n} nodes, shape {k}')
