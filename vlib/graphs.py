"""Independent reference models for graphs.  A graph here is (nodes, set of (u, v) directed pairs[, undirected set])."""
from itertools import combinations, permutations

import numpy as np

LABELS = ('int', 'str', 'shuffled', 'offset', 'tuple', 'mixed', 'falsy')


def labels(rng, n, kind=None):
    """n distinct hashable node names, in an order unrelated to their values."""
    if kind is None:
        kind = LABELS[int(rng.integers(len(LABELS)))]
    if kind == 'int':
        return list(range(n))
    if kind == 'str':
        return [f'x{int(i)}' for i in rng.permutation(n)]
    if kind == 'shuffled':
        return [int(i) for i in rng.permutation(n)]
    if kind == 'offset':
        return [int(i) for i in rng.permutation(n * 7 + 3)[:n]]
    if kind == 'tuple':
        return [(f'v{int(i)}', int(i) % 3) for i in rng.permutation(n)]
    if kind == 'falsy':
        base = ['', 0, (), 'None', frozenset(), 'a', 'b', 3.5, 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j']
        return base[:n] if n <= len(base) else base + [f'z{i}' for i in range(n - len(base))]
    out = []
    for i in rng.permutation(n):
        i = int(i)
        out.append([i + 1, f'n{i}', (i, 'a'), f'{i} {i}', float(i) + 0.5][i % 5])
    return out


def random_dag(rng, n, p=None):
    """Edge list over 0..n-1 with a random hidden order."""
    if p is None:
        p = float(rng.choice([0.15, 0.3, 0.5, 0.7, 0.9]))
    order = rng.permutation(n)
    e = []
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < p:
                e.append((int(order[i]), int(order[j])))
    idx = rng.permutation(len(e)) if e else []
    return [e[i] for i in idx]


def all_dags(n):
    """Every labelled DAG over 0..n-1, as edge lists."""
    pairs = list(combinations(range(n), 2))

    def rec(k, edges):
        if k == len(pairs):
            if acyclic(range(n), edges):
                yield list(edges)
            return
        u, v = pairs[k]
        yield from rec(k + 1, edges)
        yield from rec(k + 1, edges + [(u, v)])
        yield from rec(k + 1, edges + [(v, u)])

    yield from rec(0, [])


def acyclic(nodes, edges):
    nodes = list(nodes)
    pa = {v: set() for v in nodes}
    for u, v in edges:
        pa[v].add(u)
    left = set(nodes)
    while left:
        src = [v for v in left if not (pa[v] & left)]
        if not src:
            return False
        left -= set(src)
    return True


def parents(nodes, edges):
    pa = {v: set() for v in nodes}
    for u, v in edges:
        pa[v].add(u)
    return pa


def ancestors_of(nodes, edges, zs):
    pa = parents(nodes, edges)
    seen, stack = set(zs), list(zs)
    while stack:
        for p in pa[stack.pop()]:
            if p not in seen:
                seen.add(p)
                stack.append(p)
    return seen


def d_separated(nodes, edges, x, y, zs):
    """Lauritzen: x and y are separated by z in the moral graph of the smallest ancestral set."""
    zs = set(zs)
    an = ancestors_of(nodes, edges, zs | {x, y})
    sub = [(u, v) for u, v in edges if u in an and v in an]
    nb = {v: set() for v in an}
    pa = parents(an, sub)
    for u, v in sub:
        nb[u].add(v)
        nb[v].add(u)
    for v in an:
        for a, b in combinations(pa[v], 2):
            nb[a].add(b)
            nb[b].add(a)
    seen, stack = {x}, [x]
    while stack:
        for w in nb[stack.pop()]:
            if w == y:
                return False
            if w not in seen and w not in zs:
                seen.add(w)
                stack.append(w)
    return True


def skeleton(edges):
    return {frozenset(e) for e in edges}


def v_structures(nodes, edges):
    sk = skeleton(edges)
    pa = parents(nodes, edges)
    return {(frozenset((a, b)), c) for c in nodes for a, b in combinations(sorted(pa[c], key=repr), 2)
            if frozenset((a, b)) not in sk}


def consistent_extensions(nodes, directed, undirected, vstruct=None, limit=None):
    """All DAGs with that skeleton which keep `directed`, and whose v-structures equal `vstruct` (default: those of
    the directed part)."""
    nodes = list(nodes)
    directed = list(directed)
    und = [tuple(e) for e in undirected]
    sk = skeleton(directed) | {frozenset(e) for e in und}
    want = v_structures_of_pdag(nodes, directed, sk) if vstruct is None else vstruct
    out = []

    def bad_collider(pa, v, new):
        for a in pa[v]:
            if a != new and frozenset((a, new)) not in sk and (frozenset((a, new)), v) not in want:
                return True
        return False

    pa = {v: set() for v in nodes}
    for u, v in directed:
        pa[v].add(u)

    def reach(a, b, ch):
        seen, st = {a}, [a]
        while st:
            w = st.pop()
            if w == b:
                return True
            for x in ch[w]:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return False

    ch = {v: set() for v in nodes}
    for u, v in directed:
        ch[u].add(v)
    if not acyclic(nodes, directed):
        return []

    def rec(k):
        if limit is not None and len(out) >= limit:
            return
        if k == len(und):
            e = [(u, v) for v in nodes for u in pa[v]]
            if v_structures(nodes, e) == want:
                out.append(frozenset(e))
            return
        a, b = und[k]
        for u, v in ((a, b), (b, a)):
            if bad_collider(pa, v, u) or reach(v, u, ch):
                continue
            pa[v].add(u)
            ch[u].add(v)
            rec(k + 1)
            pa[v].discard(u)
            ch[u].discard(v)

    rec(0)
    return out


def v_structures_of_pdag(nodes, directed, sk):
    pa = parents(nodes, directed)
    return {(frozenset((a, b)), c) for c in nodes for a, b in combinations(sorted(pa[c], key=repr), 2)
            if frozenset((a, b)) not in sk}


def maximal_orientation(nodes, directed, undirected):
    """Brute force: (directed, undirected) edges of the union of all consistent extensions, or None if none exists."""
    exts = consistent_extensions(nodes, directed, undirected)
    if not exts:
        return None
    common = set(exts[0])
    for e in exts[1:]:
        common &= e
    sk = skeleton(directed) | {frozenset(e) for e in undirected}
    return common, {s for s in sk if not any(frozenset(e) == s for e in common)}


def cpdag_brute(nodes, edges):
    """CPDAG by enumerating the Markov equivalence class."""
    nodes = list(nodes)
    exts = consistent_extensions(nodes, [], [tuple(e) for e in skeleton(edges)], vstruct=v_structures(nodes, edges))
    common = set(exts[0])
    for e in exts[1:]:
        common &= e
    return common, {s for s in skeleton(edges) if not any(frozenset(e) == s for e in common)}, exts


def topo_order(nodes, edges):
    nodes = list(nodes)
    pa = parents(nodes, edges)
    order, left = [], list(nodes)
    while left:
        v = next(v for v in left if not (pa[v] - set(order)))
        order.append(v)
        left.remove(v)
    return order


def cpdag_chickering(nodes, edges):
    """CPDAG by Chickering's (1995) edge-labelling algorithm."""
    nodes = list(nodes)
    order = topo_order(nodes, edges)
    pos = {v: i for i, v in enumerate(order)}
    pa = parents(nodes, edges)
    es = []
    for y in order:
        for x in sorted(pa[y], key=lambda p: -pos[p]):
            es.append((x, y))
    lab = {e: None for e in es}
    for x, y in es:
        if lab[(x, y)] is not None:
            continue
        done = False
        for w in pa[x]:
            if lab[(w, x)] != 'c':
                continue
            if w not in pa[y]:
                for p in pa[y]:
                    lab[(p, y)] = 'c'
                done = True
                break
            lab[(w, y)] = 'c'
        if done:
            continue
        if any(z != x and z not in pa[x] for z in pa[y]):
            for p in pa[y]:
                if lab[(p, y)] is None:
                    lab[(p, y)] = 'c'
        else:
            for p in pa[y]:
                if lab[(p, y)] is None:
                    lab[(p, y)] = 'r'
    d = {e for e in es if lab[e] == 'c'}
    return d, {frozenset(e) for e in es if lab[e] == 'r'}


# ---- bridges to the library's graph classes ------------------------------------------------------------------

def build_dag(names, edges, rng=None):
    from cdmir.graph import DiGraph, Edge, Mark
    g = DiGraph(list(names))
    for u, v in edges:
        g.add_edge(Edge(names[u], names[v], Mark.Tail, Mark.Arrow))
    return g


def build_pdag(names, directed, undirected, rng=None):
    """Over indices; each edge is entered in a random orientation of its end points."""
    from cdmir.graph import PDAG, Edge, Mark
    g = PDAG(list(names))
    todo = [(u, v, 'd') for u, v in directed] + [tuple(e) + ('u',) for e in undirected]
    if rng is not None:
        todo = [todo[i] for i in rng.permutation(len(todo))] if todo else []
    for u, v, k in todo:
        flip = rng is not None and rng.random() < 0.5
        if k == 'd':
            e = Edge(names[v], names[u], Mark.Arrow, Mark.Tail) if flip else Edge(names[u], names[v], Mark.Tail, Mark.Arrow)
        else:
            e = Edge(names[v], names[u], Mark.Tail, Mark.Tail) if flip else Edge(names[u], names[v], Mark.Tail, Mark.Tail)
        g.add_edge(e)
    return g


def read_graph(g):
    """(directed pairs, undirected frozensets, other) over node names, read through `edges`."""
    from cdmir.graph import Mark
    d, u, o = set(), set(), []
    for e in g.edges:
        a, b, ma, mb = e
        if ma == Mark.Tail and mb == Mark.Arrow:
            d.add((a, b))
        elif ma == Mark.Arrow and mb == Mark.Tail:
            d.add((b, a))
        elif ma == Mark.Tail and mb == Mark.Tail:
            u.add(frozenset((a, b)))
        else:
            o.append(e)
    return d, u, o


def named(names, directed, undirected=()):
    return {(names[u], names[v]) for u, v in directed}, {frozenset(names[i] for i in e) for e in undirected}


def show(names, edges):
    return ' '.join(f'{u!r}->{v!r}' for u, v in sorted(edges, key=repr)) if edges else '(no edges)'
