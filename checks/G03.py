"""d-separation answers against the moral-graph criterion."""
from itertools import combinations

from vlib import graphs as G
from vlib.core import monitor

QUICK = 2      # times the quick cases of each monitor
RULE = ('One case = one DAG and the d-separation queries asked of it (all of them on the small DAGs, sampled ones on '
        'larger DAGs), each answered by the ancestral moral graph criterion. Distinct = (edge list, query set); '
        'non-trivial = at least one query answered separated and one connected.')
ASSUMPTIONS = ['x, y distinct and outside z', 'the graph is acyclic']


def as_iterable(rng, zs):
    k = int(rng.integers(6))
    return [list(zs), tuple(zs), set(zs), frozenset(zs), (z for z in list(zs)), {z: 1 for z in zs}.keys()][k], k


def ask(ctx, g, names, edges, x, y, zs):
    ne = edges
    want = G.d_separated(names, ne, x, y, zs)
    z, k = as_iterable(ctx.rng, zs)
    got = g.is_d_separate(x, y, z)
    ctx.event('queries')
    ctx.event('separated' if want else 'connected')
    ctx.check(bool(got) == want, 'd-separation/' + ('missed' if want else 'false') + ('-generator' if k == 4 else ''),
              lambda: f'{G.show(names, ne)} : {x!r} _||_ {y!r} | {list(zs)!r} answered {got}, criterion {want}')
    return want


@monitor(quick=543, thorough=543, need={'queries': 12000, 'separated': 1000, 'connected': 1000})
def exhaustive4(ctx):
    """every DAG on 4 nodes x every pair x every conditioning set, both argument orders"""
    global _ALL4
    try:
        alld = _ALL4
    except NameError:
        alld = _ALL4 = list(G.all_dags(4))
    e = alld[ctx.index]
    names = G.labels(ctx.rng, 4)
    g = G.build_dag(names, e)
    ne = [(names[u], names[v]) for u, v in e]
    ctx.case('all queries of', e)
    for x, y in combinations(names, 2):
        rest = [v for v in names if v not in (x, y)]
        for k in range(len(rest) + 1):
            for zs in combinations(rest, k):
                ask(ctx, g, names, ne, x, y, zs)
                ask(ctx, g, names, ne, y, x, zs)


@monitor(quick=4000, thorough=12000, need={'queries': 4000, 'separated': 300, 'reachable_sets': 300})
def sampled(ctx):
    """random DAGs (5-12 nodes, a few of up to 60): sampled queries and whole reachable sets"""
    rng = ctx.rng
    n = int(rng.integers(5, 13)) if ctx.index % 10 else int(rng.integers(20, 60))
    names = G.labels(rng, n, None if n < 14 else 'tuple')
    e = G.random_dag(rng, n, None if n < 14 else 2.5 / n)
    g = G.build_dag(names, e)
    ne = [(names[u], names[v]) for u, v in e]
    seen = set()
    for _ in range(12):
        x, y = (names[int(i)] for i in rng.choice(n, 2, replace=False))
        rest = [v for v in names if v not in (x, y)]
        k = min(len(rest), int(rng.integers(0, 5)))
        zs = [rest[int(i)] for i in rng.choice(len(rest), k, replace=False)]
        a = ask(ctx, g, names, ne, x, y, zs)
        b = ask(ctx, g, names, ne, y, x, zs)
        seen |= {a, b}
    x = names[int(rng.integers(n))]
    rest = [v for v in names if v != x]
    zs = [rest[int(i)] for i in rng.choice(len(rest), int(rng.integers(0, 4)), replace=False)]
    got = set(g.get_reachable_nodes(x, zs)) - {x}
    want = {y for y in names if y != x and y not in zs and not G.d_separated(names, ne, x, y, zs)}
    ctx.event('reachable_sets')
    ctx.check(got == want, 'reachable-set', lambda: f'{G.show(names, ne)}: from {x!r} given {zs!r}: {got!r}, want {want!r}')
    got = set(g.get_reachable_nodes(x)) - {x}
    want = {y for y in names if y != x and not G.d_separated(names, ne, x, y, ())}
    ctx.check(got == want, 'reachable-set-marginal', lambda: f'{G.show(names, ne)}: from {x!r}: {got!r}, want {want!r}')
    if len(seen) == 2:
        ctx.case(e)


@monitor(quick=1500, thorough=8000, need={'queries': 20000, 'separated': 3000, 'connected': 3000, 'edits': 3000})
def edited(ctx):
    """the same queries asked again of one graph object after edges were turned round, moved, added and removed, and of a copy"""
    from copy import deepcopy

    from cdmir.graph import Edge, Mark
    rng = ctx.rng
    n = int(rng.integers(3, 7))
    names = G.labels(rng, n)
    rank = rng.permutation(n)
    e = {(int(rank[i]), int(rank[j])) for i in range(n) for j in range(i + 1, n) if rng.random() < .45}
    g = G.build_dag(names, list(e))
    qs = []
    for _ in range(4):
        x, y = (names[int(i)] for i in rng.choice(n, 2, replace=False))
        rest = [v for v in names if v not in (x, y)]
        qs.append((x, y, [v for v in rest if rng.random() < .4]))
    hist = []
    for step in range(5):
        ne = [(names[u], names[v]) for u, v in sorted(e)]
        for x, y, z in qs:
            ask(ctx, g, names, ne, x, y, z)
        hist.append(tuple(sorted(e)))
        kind = int(rng.integers(4))
        if kind == 3:
            g = deepcopy(g)
        if e and kind in (0, 1):
            u, v = sorted(e)[int(rng.integers(len(e)))]
            g.remove_edge(names[u], names[v])
            e.discard((u, v))
            if kind == 0:
                if G.acyclic(range(n), e | {(v, u)}):
                    g.add_edge(Edge(names[v], names[u], Mark.Tail, Mark.Arrow))
                    e.add((v, u))
        free = [(i, j) for i in range(n) for j in range(n) if i != j and (i, j) not in e and (j, i) not in e
                and G.acyclic(range(n), e | {(i, j)})]
        if free and kind in (1, 2):
            u, v = free[int(rng.integers(len(free)))]
            g.add_edge(Edge(names[u], names[v], Mark.Tail, Mark.Arrow))
            e.add((u, v))
        ctx.event('edits')
    ctx.case(hist)


@monitor(quick=500, thorough=3000, need={'queries': 6000, 'separated': 400, 'connected': 1000, 'long_z': 2000})
def dense(ctx):
    """12-30 nodes with many edges: conditioning sets of every size - the parents of one end (which separate it from its
    other non-descendants), the same with one missing or with a descendant added, all other nodes - and chains and
    colliders whose conditioned descendant is many steps away"""
    rng = ctx.rng
    n = int(rng.integers(12, 31))
    names = G.labels(rng, n, ['int', 'tuple', 'shuffled', 'mixed'][ctx.index % 4])
    if ctx.index % 3 == 2:
        # a zig-zag of colliders, each with a long tail of descendants, conditioned on the tail's end
        order, e, ends, i = [int(k) for k in rng.permutation(n)], [], [], 1
        src, path = order[0], [order[0]]
        while i + 1 < n:
            col, nxt = order[i], order[i + 1]
            e += [(src, col), (nxt, col)]
            i += 2
            tail = col
            for _ in range(int(rng.integers(0, 9))):
                if i >= n:
                    break
                e.append((tail, order[i]))
                tail = order[i]
                i += 1
            ends.append(tail)
            src = nxt
            path.append(nxt)
        g = G.build_dag(names, e)
        ne = [(names[a], names[b]) for a, b in e]
        x, y = names[path[0]], names[path[-1]]
        sets = [ends, ends[:-1], ends[1:], [t for t in ends if rng.random() < .8]]
        qs = [(x, y, [names[t] for t in s if names[t] not in (x, y)]) for s in sets]
    else:
        e = G.random_dag(rng, n, float(rng.choice([.15, .3, .5, .8])))
        g = G.build_dag(names, e)
        ne = [(names[a], names[b]) for a, b in e]
        pa = G.parents(names, ne)
        qs = []
        for _ in range(5):
            x, y = (names[int(i)] for i in rng.choice(n, 2, replace=False))
            if x in G.ancestors_of(names, ne, [y]):
                x, y = y, x                                     # y is no descendant of x
            rest = [v for v in names if v not in (x, y)]
            z = [v for v in rest if v in pa[x]]
            qs.append((x, y, z))
            if z:
                qs.append((x, y, z[:-1]))
            other = [v for v in rest if v not in z]
            if other:
                qs.append((x, y, z + [other[int(rng.integers(len(other)))]]))
            qs.append((x, y, rest))
            qs.append((x, y, [v for v in rest if rng.random() < .6]))
    for x, y, z in qs:
        ask(ctx, g, names, ne, x, y, z)
        ask(ctx, g, names, ne, y, x, z)
        ctx.event('long_z', int(len(z) > 4))
    ctx.case(e)
