"""v-structure and Meek orientation on PDAGs."""
from itertools import combinations

from vlib import graphs as G
from vlib.core import monitor

QUICK = 5      # times the quick cases of each monitor
RULE = ('One case = one PDAG: a pattern (skeleton + v-structures) or CPDAG of a random DAG plus random background '
        'orientations taken from that DAG, or an arbitrary PDAG. The closure is compared with the intersection of all '
        'consistent DAG extensions (brute force). Distinct = (directed, undirected) edge sets; non-trivial = the '
        'closure has to orient at least one edge or must leave one undirected.')
ASSUMPTIONS = ['completeness is decided for orientable PDAGs of up to 7 nodes']


def sepsets(nodes, e):
    """A separating set for every non-adjacent pair: the parents of one of the two."""
    out = {}
    pa = G.parents(nodes, e)
    sk = G.skeleton(e)
    for u in nodes:
        for v in nodes:
            if u != v:
                out[(u, v)] = set()
    for u, v in combinations(nodes, 2):
        if frozenset((u, v)) in sk:
            continue
        z = pa[v] if v not in G.ancestors_of(nodes, e, [u]) else pa[u]
        out[(u, v)] = set(z)
        out[(v, u)] = set(z)
    return out


@monitor(quick=3000, thorough=15000, need={'triples': 200})
def rule0(ctx):
    """from the skeleton and separating sets of a DAG, rule0 directs exactly the v-structures"""
    rng = ctx.rng
    n = int(rng.integers(3, 9))
    names = G.labels(rng, n)
    e = [(names[u], names[v]) for u, v in G.random_dag(rng, n)]
    idx = {x: i for i, x in enumerate(names)}
    g = G.build_pdag(names, [], [(idx[u], idx[v]) for u, v in e], rng)
    s = sepsets(names, e)
    g.rule0(s, verbose=bool(rng.random() < .2))
    vs = G.v_structures(names, e)
    ctx.event('triples', len(vs))
    want = {(p, c) for pr, c in vs for p in pr}
    d, u, o = G.read_graph(g)
    ctx.case(n, sorted(((idx[a], idx[b]) for a, b in e)))
    ctx.check(not o and d == want and u == G.skeleton(e) - G.skeleton(want), 'rule0',
              lambda: f'{G.show(names, e)}: directed {d!r}, v-structures need {want!r}')


def pdag_case(rng, n, mode):
    e = G.random_dag(rng, n, float(rng.choice([.3, .5, .7, .9])))
    if mode == 'pattern':
        vs = {(p, c) for pr, c in G.v_structures(range(n), e) for p in pr}
        base = vs
    elif mode == 'cpdag':
        base, _ = G.cpdag_chickering(range(n), e)
    else:
        base = {(p, c) for pr, c in G.v_structures(range(n), e) for p in pr}
    und = [s for s in G.skeleton(e) - G.skeleton(base)]
    know = set()
    if mode != 'pattern':
        und.sort(key=sorted)
        take = {s for s in und if rng.random() < float(rng.choice([.15, .35, .6]))}
        know = {x for x in e if frozenset(x) in take}
        und = [s for s in und if s not in take]
    return e, set(base) | know, set(und)


@monitor(quick=6000, thorough=30000, cpu=120, need={'closures': 900, 'oriented': 200, 'left_undirected': 200,
                                                    'with_knowledge': 300})
def closure(ctx):
    """orient_by_meek_rules directs an edge iff all consistent extensions agree on it"""
    rng = ctx.rng
    mode = ['pattern', 'cpdag', 'knowledge'][ctx.index % 3]
    n = int(rng.integers(3, 7 if not ctx.thorough else 8))
    names = G.labels(rng, n)
    e, D, U = pdag_case(rng, n, mode)
    if len(U) > 13:
        e, D, U = pdag_case(rng, 5, mode)
        n = 5
        names = names[:5]
    vs = G.v_structures(range(n), e)
    exts = G.consistent_extensions(range(n), D, [tuple(s) for s in U], vstruct=vs)
    common = set(exts[0]).intersection(*exts)
    g = G.build_pdag(names, D, U, rng)
    g.orient_by_meek_rules(verbose=bool(rng.random() < .1))
    d, u, o = G.read_graph(g)
    wd, wu = G.named(names, common, {s for s in G.skeleton(e) if not any(frozenset(x) == s for x in common)})
    inv = lambda s: sorted(((names.index(a), names.index(b)) for a, b in s))
    tag = lambda: (f'mode {mode}, n={n}: directed {sorted(D)} undirected {sorted(map(sorted, U))}; '
                   f'extra {inv(d - wd)} missing {inv(wd - d)} (node numbers)')
    ctx.event('closures')
    ctx.event('oriented', len(common) - len(D))
    ctx.event('left_undirected', len(wu))
    if mode != 'pattern' and D:
        ctx.event('with_knowledge')
    ctx.check(not o and {frozenset(x) for x in d} | u == {frozenset(x) for x in wd} | wu, 'closure/skeleton', tag)
    ctx.check(G.named(names, D)[0] <= d, 'closure/reverted', tag)
    ctx.check(not (d - wd), 'closure/unsound', tag)
    ctx.check(not (wd - d), 'closure/incomplete', tag)
    if U:
        ctx.case(sorted(D), sorted(map(sorted, U)))


@monitor(quick=2000, thorough=15000, need={'rule_calls': 4000, 'rule_changed': 300})
def single_rules(ctx):
    """each rule only orients edges all consistent extensions agree on, keeps directed edges, and reports change"""
    rng = ctx.rng
    n = int(rng.integers(3, 7))
    names = G.labels(rng, n)
    e, D, U = pdag_case(rng, n, ['cpdag', 'knowledge'][ctx.index % 2])
    if len(U) > 12:
        return
    exts = G.consistent_extensions(range(n), D, [tuple(s) for s in U], vstruct=G.v_structures(range(n), e))
    common = set(exts[0]).intersection(*exts)
    wd, _ = G.named(names, common)
    for r in ('rule1', 'rule2', 'rule3', 'rule4'):
        g = G.build_pdag(names, D, U, rng)
        before = G.read_graph(g)
        changed = getattr(g, r)()
        d, u, o = G.read_graph(g)
        tag = lambda: f'{r}: names {names!r} directed {sorted(D)} undirected {sorted(map(sorted, U))} gave {sorted(d, key=repr)}'
        ctx.event('rule_calls')
        ctx.event('rule_changed', int(d != before[0]))
        ctx.check(bool(changed) == (d != before[0]), f'{r}/change-flag', tag)
        ctx.check(before[0] <= d and {frozenset(x) for x in d} | u == {frozenset(x) for x in before[0]} | before[1],
                  f'{r}/disturbs', tag)
        ctx.check(d <= wd, f'{r}/unsound', tag)
    if U:
        ctx.case(sorted(D), sorted(map(sorted, U)))


def applicable(nodes, d, u):
    """Reference patterns of Meek's four rules that still match."""
    adj = {frozenset(x) for x in d} | u
    con = lambda a, b: frozenset((a, b)) in adj
    und = [tuple(s) for s in u] + [tuple(s)[::-1] for s in u]
    out = []
    for a, b in und:            # would be oriented a -> b
        if any((c, a) in d and not con(c, b) for c in nodes if c not in (a, b)):
            out.append((1, a, b))
        if any((a, c) in d and (c, b) in d for c in nodes):
            out.append((2, a, b))
        par = [c for c in nodes if (c, b) in d and frozenset((a, c)) in u]
        if any(not con(c, e) for c, e in combinations(par, 2)):
            out.append((3, a, b))
        for c in nodes:         # e -> c -> b, e adjacent to a (undirected), e not adjacent to b, c adjacent to a
            if (c, b) in d and c != a and con(a, c):
                if any((e, c) in d and frozenset((a, e)) in u and not con(e, b) for e in nodes if e not in (a, b)):
                    out.append((4, a, b))
    return out


@monitor(quick=2000, thorough=15000, need={'arbitrary': 400})
def arbitrary(ctx):
    """on any PDAG at all (also without an extension) the closure ends, keeps the skeleton and the directed edges,
    is a fixpoint of all four rules and does not depend on the order edges were entered"""
    rng = ctx.rng
    n = int(rng.integers(3, 9))
    names = G.labels(rng, n)
    D, U = set(), set()
    p = float(rng.choice([.3, .6, .9]))
    for a, b in combinations(range(n), 2):
        if rng.random() < p:
            k = int(rng.integers(4))
            D.add((a, b)) if k == 0 else D.add((b, a)) if k == 1 else U.add(frozenset((a, b)))
    g = G.build_pdag(names, D, U, rng)
    g.orient_by_meek_rules()
    d, u, o = G.read_graph(g)
    nd, nu = G.named(names, D, U)
    tag = lambda: f'directed {sorted(D)} undirected {sorted(map(sorted, U))}'
    ctx.event('arbitrary')
    ctx.check(not o and nd <= d and {frozenset(x) for x in d} | u == {frozenset(x) for x in nd} | nu,
              'arbitrary/disturbs', tag)
    ctx.check(list(g.nodes) == names, 'arbitrary/nodes', tag)
    left = applicable(names, d, u)
    ctx.check(not left, 'arbitrary/rule-still-applies', lambda: f'{tag()} closed to {sorted(d, key=repr)}: {left}')
    again = [getattr(g, r)() for r in ('rule1', 'rule2', 'rule3', 'rule4')]
    d2, u2, _ = G.read_graph(g)
    ctx.check(not any(again) and (d2, u2) == (d, u), 'arbitrary/not-a-fixpoint', lambda: f'{tag()}: {again}')
    ctx.case(sorted(D), sorted(map(sorted, U)))


@monitor(quick=120, thorough=1500, cpu=120, need={'closures': 100, 'oriented': 100, 'left_undirected': 100, 'long_chains': 20})
def large(ctx):
    """10-40 nodes: rule0 on the skeleton, then the closure, give the CPDAG Chickering's labelling gives; with knowledge
    added the closure is the least fixpoint of the four rules (reference closure) and lies inside the DAG"""
    rng = ctx.rng
    n = int(rng.integers(10, 26)) if ctx.index % 6 else int(rng.integers(26, 41))
    names = G.labels(rng, n, None if n <= 16 else ['int', 'tuple', 'shuffled', 'mixed'][ctx.index % 4])
    e = G.random_dag(rng, n, float(rng.choice([1.2, 2, 3, 5])) / n)
    if ctx.index % 4 == 3:
        # a collider with a long tail, entered so that each scan of the pairs in node order directs few edges
        e = [(i, i - 1) for i in range(n - 3, 0, -1)] + [(n - 1, n - 3), (n - 2, n - 3)]
        if rng.random() < .5:
            e = [(n - 1 - a, n - 1 - b) for a, b in e]
        if rng.random() < .5:
            e += [(a, b - 1) for a, b in e if 1 < b < n - 4 and rng.random() < .3 and a == b + 1]
        ctx.event('long_chains')
    idx = {x: i for i, x in enumerate(names)}
    ne = [(names[u], names[v]) for u, v in e]
    vs = {(p, c) for pr, c in G.v_structures(range(n), e) for p in pr}
    D, U = G.cpdag_chickering(range(n), e)
    g = G.build_pdag(names, [], e, rng)
    g.rule0(sepsets(names, ne))
    d, u, o = G.read_graph(g)
    tag = lambda: f'n={n}: {sorted(e)} names {names!r}'
    inv = lambda s: sorted((idx[a], idx[b]) for a, b in s)
    wd, _ = G.named(names, vs)
    ctx.check(not o and d == wd and u == G.skeleton(ne) - G.skeleton(wd), 'large/rule0',
              lambda: f'{tag()}: extra {inv(d - wd)} missing {inv(wd - d)}')
    if d != wd:
        return
    g.orient_by_meek_rules()
    d, u, o = G.read_graph(g)
    wd, wu = G.named(names, D, U)
    ctx.event('closures')
    ctx.event('oriented', len(D) - len(vs))
    ctx.event('left_undirected', len(U))
    ctx.check(not o and {frozenset(x) for x in d} | u == G.skeleton(ne), 'large/skeleton', tag)
    ctx.check(not (d - wd), 'large/unsound', lambda: f'{tag()}: {inv(d - wd)}')
    ctx.check(not (wd - d), 'large/incomplete', lambda: f'{tag()}: {inv(wd - d)}')
    und = sorted(U, key=sorted)
    take = {s for s in und if rng.random() < float(rng.choice([.1, .3, .5]))}
    D2 = set(D) | {x for x in e if frozenset(x) in take}
    U2 = set(U) - take
    ref, left = set(D2), set(U2)
    while True:
        new = applicable(range(n), ref, left)
        if not new:
            break
        _, a, b = new[0]
        ref.add((a, b))
        left.discard(frozenset((a, b)))
    g = G.build_pdag(names, D2, U2, rng)
    g.orient_by_meek_rules()
    d, u, o = G.read_graph(g)
    wd, wu = G.named(names, ref, left)
    ctx.event('with_knowledge')
    ctx.event('oriented', len(ref) - len(D2))
    ctx.check(not o and (d, u) == (wd, wu), 'large/knowledge',
              lambda: f'{tag()} knowledge {sorted(D2 - set(D))}: extra {inv(d - wd)} missing {inv(wd - d)}')
    ctx.case(n, sorted(e), sorted(D2))
