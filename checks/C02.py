"""Adjacency searches under arbitrary answers of the independence test: trace specification over the query log."""
import hashlib
from itertools import combinations

import numpy as np

from vlib import graphs as G
from vlib.core import monitor

QUICK = 6      # times the quick cases of each monitor
RULE = ('One case = one deterministic symmetric p-value table (random, oracle with random flips, or values exactly at '
        'alpha) and one adjacency search; every test() call is logged in order with the graph size it implies and the '
        'log is checked against the search specification. Distinct = the table seed, size and search; non-trivial = '
        'some edge removed and some kept.')
ASSUMPTIONS = ['the test answers the same query the same way each time and symmetrically in x and y']


def table_test(salt, alpha, dens, kind, log, dagpack):
    from cdmir.utils.independence import ConditionalIndependentTest

    class T(ConditionalIndependentTest):
        def test(self, x, y, z=None):
            zz = tuple(z) if z is not None else ()
            key = repr((sorted([self.name_id[x], self.name_id[y]]), sorted(self.name_id[w] for w in zz)))
            h = int.from_bytes(hashlib.md5(f'{salt}{key}'.encode()).digest()[:6], 'little') / 2 ** 48
            if kind == 'oracle':
                names, edges = dagpack
                sep = G.d_separated(names, edges, x, y, zz)
                if h < .08:
                    sep = not sep
                p = alpha + (1 - alpha) * .5 if sep else alpha * .5
            else:
                accept = (h * 7919) % 1 < dens
                if kind == 'edge':
                    p = alpha if accept else np.nextafter(alpha, 0)
                else:
                    p = alpha + (1 - alpha) * h if accept else alpha * h * .999
            log.append((x, y, zz, p))
            return p, h

    return T


def ref_stable(names, alpha, query):
    """PC-stable skeleton: adjacency sets are frozen per level, removals take effect at the end of the level."""
    adj = {v: [w for w in names if w != v] for v in names}
    for k in range(0, len(names) - 1):
        drop = set()
        for u in names:
            for v in adj[u]:
                for z in combinations([w for w in adj[u] if w != v], k):
                    if query(u, v, z) >= alpha:
                        drop.add(frozenset((u, v)))
        for s in drop:
            a, b = tuple(s)
            adj[a].remove(b)
            adj[b].remove(a)
    return {frozenset((u, v)) for u in names for v in adj[u]}


def check_trace(ctx, names, alpha, g, sep, log, fast, tag):
    d, u, o = G.read_graph(g)
    ctx.event('searches')
    ctx.event('queries', len(log))
    ctx.check(not d and not o and list(g.nodes) == list(names), 'result/undirected', tag)
    accepted, asked = {}, {}
    level = 0
    for x, y, z, p in log:
        pr = frozenset((x, y))
        ctx.check(len(pr) == 2 and len(set(z)) == len(z) and not (pr & set(z)) and set(z) <= set(names),
                  'trace/malformed-query', lambda: f'{tag}: {x!r},{y!r}|{z!r}')
        ctx.check(len(z) >= level, 'trace/level-decreased', lambda: f'{tag}: {x!r},{y!r}|{z!r} after level {level}')
        if len(z) > level:
            level = len(z)
            at_level = {q for q, zs in accepted.items() if any(len(t) < level for t in zs)}
        if level:
            ctx.check(pr not in at_level, 'trace/tested-after-removal', lambda: f'{tag}: {x!r},{y!r}|{z!r}')
            nb = lambda v: {w for w in names if w != v and frozenset((v, w)) not in at_level}
            ctx.check(set(z) <= nb(x) or set(z) <= nb(y), 'trace/conditions-on-non-neighbours',
                      lambda: f'{tag}: {x!r},{y!r}|{z!r}')
        asked.setdefault(pr, set()).add(frozenset(z))
        if p >= alpha:
            accepted.setdefault(pr, set()).add(frozenset(z))
    allp = {frozenset(c) for c in combinations(names, 2)}
    ctx.check(u == allp - set(accepted), 'result/edges-vs-log',
              lambda: f'{tag}: kept {u}; pairs never accepted as independent {allp - set(accepted)}')
    nbf = {v: {w for w in names if frozenset((v, w)) in u} for v in names}
    for pr in u:
        a, b = tuple(pr)
        for base in (nbf[a] - {b}, nbf[b] - {a}):
            for k in range(0, min(len(base), len(names) - 2) + 1):
                for z in combinations(sorted(base, key=repr), k):
                    ctx.check(frozenset(z) in asked.get(pr, ()), 'trace/kept-untested',
                              lambda: f'{tag}: edge {a!r}-{b!r} kept, never tested given {z!r}')
    for a in names:
        for b in names:
            if a == b:
                continue
            s = set(sep[(a, b)])
            want = set().union(*accepted.get(frozenset((a, b)), [set()]))
            ctx.check(s == want, 'sep_set/not-from-log', lambda: f'{tag}: {a!r},{b!r}: {s!r}, accepted {want!r}')
    return u


@monitor(quick=500, thorough=15000, cpu=120, need={'searches': 500, 'removed': 500, 'kept': 500, 'queries': 5000})
def traces(ctx):
    """every query log of both searches against the specification; the default search equals PC-stable and is
    independent of the variable order"""
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    rng = ctx.rng
    n = int(rng.integers(1, 7 if not ctx.thorough else 8))
    names = G.labels(rng, n)
    alpha = float(rng.choice([.01, .05, .3, .9]))
    kind = ['random', 'edge', 'oracle'][int(rng.integers(3))]
    dens = float(rng.choice([.02, .08, .2, .5]))
    fast = bool(ctx.index % 2)
    salt = ctx.case_seed
    pack = (names, [(names[u], names[v]) for u, v in G.random_dag(rng, n)])
    log = []
    T = table_test(salt, alpha, dens, kind, log, pack)
    t = T(np.zeros((2, n)), var_names=names)
    f = fast_adjacency_search if fast else adjacency_search
    g, sep = f(t, names, alpha)
    tag = f'{f.__name__} n={n} names={names!r} alpha={alpha} kind={kind} dens={dens} salt={salt}'
    u = check_trace(ctx, names, alpha, g, sep, log, fast, tag)
    ctx.event('kept', len(u))
    ctx.event('removed', n * (n - 1) // 2 - len(u))
    if u and len(u) < n * (n - 1) // 2:
        ctx.case(n, kind, dens, salt, fast)
    if not fast:
        want = ref_stable(names, alpha, lambda a, b, z: t.test(a, b, z)[0])
        ctx.check(u == want, 'result/not-pc-stable', lambda: f'{tag}: {u} expected {want}')
        perm = [names[int(i)] for i in rng.permutation(n)]
        log2 = []
        # the same p-values for the same variables, columns entered in another order
        T2 = table_test(salt, alpha, dens, kind, log2, pack)
        t2 = T2(np.zeros((2, n)), var_names=perm)
        t2.name_id = {v: i for i, v in enumerate(names)}
        g2, _ = adjacency_search(t2, perm, alpha)
        ctx.event('reordered')
        ctx.check(G.read_graph(g2)[1] == u, 'result/order-dependent',
                  lambda: f'{tag}: order {perm!r} gives {G.read_graph(g2)[1]} instead of {u}')


@monitor(quick=60, thorough=2000, cpu=120, need={'fits': 100, 'removed': 100, 'kept': 50, 'high_alpha': 20})
def through_pc(ctx):
    """PC passes its own level, test and names to the search: the log of the queries PC makes meets the same specification
    with PC's skeleton and separating sets, on arbitrary answers and on Fisher-Z answers, at any level, at every fit of
    one object"""
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    from cdmir.discovery.constraint.pc import PC
    from cdmir.utils.independence import FisherZ
    rng = ctx.rng
    fast = bool(ctx.index % 2)
    f = fast_adjacency_search if fast else adjacency_search
    alpha = float(rng.choice([.01, .05, .3, .7, .9, .99]))
    pc = PC(alpha=alpha, adjacency_search_method=f, verbose=bool(rng.integers(2)))
    log = []
    data_driven = bool(rng.integers(2))
    n = int(rng.integers(2, 6))
    if data_driven:
        class T(FisherZ):
            def test(self, x, y, z=None):
                zz = tuple(z) if z is not None else ()
                r = super().test(x, y, zz)
                log.append((x, y, zz, r[0]))
                return r
    else:
        salt, dens = ctx.case_seed, float(rng.choice([.05, .2, .5]))
        T = None
    for k in range(3):
        names = G.labels(rng, n)
        X = rng.normal(size=(int(rng.choice([30, 200])), n))
        for a, b in G.random_dag(rng, n):
            X[:, b] += X[:, a] * float(rng.choice([-1.2, -.5, .5, 1.2]))
        keep = X.copy()
        if not data_driven:
            T = table_test(salt + k, alpha, dens, ['random', 'edge'][k % 2], log, None)
        if k and rng.random() < .5:
            alpha = float(rng.choice([.02, .2, .6, .95])) if data_driven else alpha
            pc.set_alpha(alpha)
        del log[:]
        pc.fit(X, var_names=names, indep_cls=T)
        tag = f'fit {k + 1} {f.__name__} n={n} names={names!r} alpha={alpha} data={data_driven} seed={ctx.case_seed}'
        ctx.event('fits')
        ctx.event('high_alpha', int(alpha > .5))
        ctx.check((X == keep).all(), 'data-changed', tag)
        u = check_trace(ctx, names, alpha, pc.skeleton, pc.sep_set, log, fast, tag)
        ctx.event('kept', len(u))
        ctx.event('removed', n * (n - 1) // 2 - len(u))
        adj = {frozenset(e[:2]) for e in pc.causal_graph.edges}
        ctx.check(adj == u and list(pc.causal_graph.nodes) == list(names), 'pc/adjacencies', lambda: f'{tag}: {adj}, {u}')
        if data_driven:
            C = np.corrcoef(keep, rowvar=False)
            for x, y, z, p in log:
                from scipy.stats import norm
                ix = [names.index(v) for v in (x, y) + tuple(z)]
                P = np.linalg.inv(C[np.ix_(ix, ix)])
                r = -P[0, 1] / np.sqrt(P[0, 0] * P[1, 1])
                want = 2 * norm.sf(np.sqrt(len(X) - len(z) - 3) * abs(np.arctanh(r)))
                ctx.check(abs(p - want) < 1e-7, 'pc/test-data', lambda: f'{tag}: {x!r},{y!r}|{z!r}: {p}, these data give {want}')
    ctx.case(n, fast, ctx.case_seed)
