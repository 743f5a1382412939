"""Graph store: history + executable reference model at the public boundary of Graph / DiGraph / PDAG."""
import copy
import warnings

import numpy as np

from vlib import graphs as G
from vlib.core import monitor

QUICK = 3      # times the quick cases of each monitor
RULE = ('One case = one random history of public graph operations (adds, overwrites, removals, refused and no-op '
        'calls) on a Graph, DiGraph or PDAG whose nodes are hashables of mixed types; after every operation every '
        'public view is compared with a dictionary model. Distinct = distinct operation sequence; non-trivial = the '
        'history holds at least one edge insertion and one removal or refusal.')
ASSUMPTIONS = ['self-loops and Mark.Null are outside the histories', 'asserts enabled (python without -O)']


class Model:
    """Nodes in insertion order; one entry {frozenset: {node: mark}} per edge."""

    def __init__(self, nodes=()):
        self.nodes = list(nodes)
        self.e = {}

    def copy(self):
        m = Model(self.nodes)
        m.e = {k: dict(v) for k, v in self.e.items()}
        return m

    def connected(self, u, v):
        return frozenset((u, v)) in self.e


def marks():
    from cdmir.graph import Mark
    return Mark


def compare(ctx, g, m, tag, full=True):
    """Every public view of g against the model."""
    from cdmir.graph import Mark, Edge
    ctx.event('states_compared')
    ns = list(g.nodes)
    if not ctx.check(ns == m.nodes, 'view/nodes', lambda: f'{tag}: nodes {ns!r} expected {m.nodes!r}'):
        return
    ctx.check(set(ns) == set(g.node_set) and list(g.node_list) == ns, 'view/node-containers',
              lambda: f'{tag}: node_set/node_list disagree with nodes')
    ctx.check(g.number_of_nodes() == len(m.nodes), 'view/number_of_nodes', tag)
    es = list(g.edges)
    got = {}
    for e in es:
        k = frozenset((e[0], e[1]))
        ctx.check(k not in got, 'view/edges-duplicated', lambda: f'{tag}: {e!r} listed twice')
        got[k] = {e[0]: e[2], e[1]: e[3]}
    ctx.check(got == m.e, 'view/edges', lambda: f'{tag}: edges {got!r} expected {m.e!r}')
    ctx.check(g.number_of_edges() == len(m.e), 'view/number_of_edges', tag)
    M = g.to_numpy()
    MT = g.to_numpy(transpose=True)
    want = np.zeros((len(ns), len(ns)), dtype=int)
    for i, u in enumerate(ns):
        nb = list(g.get_neighbours(u))
        ctx.check(len(nb) == len(set(nb)) and set(nb) == {v for v in ns if m.connected(u, v)}, 'view/neighbours',
                  lambda: f'{tag}: neighbours of {u!r}: {nb!r}')
        for j, v in enumerate(ns):
            if i == j:
                continue
            d = m.e.get(frozenset((u, v)))
            con = g.is_connected(u, v)
            ctx.check(con == (d is not None), 'view/is_connected', lambda: f'{tag}: {u!r},{v!r}')
            if d is not None:
                want[i, j] = int(d[u])
            mv = None if d is None else d[v]
            mu = None if d is None else d[u]
            obs = (bool(g.is_arrow(u, v)), bool(g.is_tail(u, v)), bool(g.is_circle(u, v)),
                   bool(g.is_fully_directed(u, v)), bool(g.is_fully_undirected(u, v)))
            exp = (mv == Mark.Arrow, mv == Mark.Tail, mv == Mark.Circle, mu == Mark.Tail and mv == Mark.Arrow,
                   mu == Mark.Tail and mv == Mark.Tail)
            ctx.check(obs == exp, 'view/mark-predicates', lambda: f'{tag}: {u!r},{v!r}: {obs} expected {exp}')
            ge = g.get_edge(u, v)
            ctx.check((ge is None) == (d is None) and (d is None or tuple(ge) == (u, v, d[u], d[v])),
                      'view/get_edge', lambda: f'{tag}: get_edge({u!r},{v!r}) = {ge!r}')
    ctx.check(M.shape == want.shape and (M == want).all(), 'view/to_numpy', lambda: f'{tag}: {M} expected {want}')
    ctx.check(MT.shape == want.shape and (MT == want.T).all(), 'view/to_numpy-transpose', tag)
    if full:
        df = g.to_dataframe()
        ctx.check(list(df.index) == ns and list(df.columns) == ns and (df.to_numpy() == want).all(),
                  'view/to_dataframe', lambda: f'{tag}:\n{df}')
        lines = str(g).split('\n')
        ctx.check(lines[0] == f'Graph Class: {type(g).__name__}' and lines[1] == 'Graph Nodes:' and
                  lines[2] == ', '.join(str(x) for x in ns) and lines[3] == 'Graph Edges:', 'view/str-header',
                  lambda: f'{tag}: {lines[:4]}')
        body = [x for x in lines[4:] if x]
        L = {Mark.Tail: '-', Mark.Arrow: '<', Mark.Circle: 'o'}
        R = {Mark.Tail: '-', Mark.Arrow: '>', Mark.Circle: 'o'}
        exp = {f'{i + 1}. {a} {L[ma]}-{R[mb]} {b}' for i, (a, b, ma, mb) in enumerate(es)}
        ctx.check(len(body) == len(es) and set(body) == exp, 'view/str-edges', lambda: f'{tag}: {body} expected {exp}')


def random_marks(rng, cls, Mark):
    r = lambda xs: xs[int(rng.integers(len(xs)))]
    if cls == 'DiGraph':
        return Mark.Tail, Mark.Arrow
    if cls == 'PDAG':
        return r([Mark.Tail, Mark.Arrow]), r([Mark.Tail, Mark.Arrow])
    return r([Mark.Tail, Mark.Arrow, Mark.Circle]), r([Mark.Tail, Mark.Arrow, Mark.Circle])


@monitor(quick=3000, thorough=12000, need={'states_compared': 4000, 'op/remove_edge': 100, 'op/overwrite': 60,
                                          'op/remove_node': 60, 'rejections_expected': 300})
def history(ctx):
    """random operation histories against the dictionary model"""
    from cdmir.graph import Graph, DiGraph, PDAG, Edge, Mark
    rng = ctx.rng
    cls = [Graph, DiGraph, PDAG][int(rng.integers(3))]
    cn = cls.__name__
    wide = rng.random() < .1
    n0 = int(rng.integers(0, 16 if wide else 7))
    pool = G.labels(rng, 18 if wide else 10)
    start = pool[:n0]
    given = list(start)
    how = int(rng.integers(4))
    g = cls(given) if how == 0 else cls(tuple(given)) if how == 1 else cls(x for x in given) if how == 2 or given else cls()
    given.append('later')
    m = Model(start)
    log = [cn, tuple(start)]
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    inserted = refused = 0
    snapshots = []
    steps = int(rng.integers(8, 30))
    compare(ctx, g, m, f'{log}', full=True)
    for _ in range(steps):
        op = pick(['add_edge'] * 6 + ['add_edges', 'add_node', 'add_nodes', 'dup_node', 'remove_edge', 'remove_edge',
                                      'remove_node', 'overwrite', 'overwrite', 'bad_mark', 'dup_edge', 'missing',
                                      'remove_absent', 'remove_nodes', 'copy'])
        pairs = [(u, v) for u in m.nodes for v in m.nodes if u != v]
        free = [p for p in pairs if not m.connected(*p)]
        used = [p for p in pairs if m.connected(*p)]
        absent = [x for x in pool if x not in m.nodes]
        if op == 'add_edge' and free:
            u, v = pick(free)
            mu, mv = random_marks(rng, cn, Mark)
            g.add_edge(Edge(u, v, mu, mv), overwrite=bool(rng.random() < .3))
            m.e[frozenset((u, v))] = {u: mu, v: mv}
            log.append(('add', u, v, int(mu), int(mv)))
            inserted += 1
        elif op == 'add_edges' and free:
            batch, seen = [], set()
            for _k in range(int(rng.integers(1, 4))):
                u, v = pick(free)
                if frozenset((u, v)) in seen:
                    continue
                seen.add(frozenset((u, v)))
                batch.append(Edge(u, v, *random_marks(rng, cn, Mark)))
            g.add_edges(iter(batch) if rng.random() < .5 else batch)
            for e in batch:
                m.e[frozenset(e[:2])] = {e[0]: e[2], e[1]: e[3]}
            log.append(('adds', [tuple(e) for e in batch]))
            inserted += 1
        elif op == 'overwrite' and used:
            u, v = pick(used)
            mu, mv = random_marks(rng, cn, Mark)
            if rng.random() < .5:
                g.add_edge(Edge(u, v, mu, mv), overwrite=True)
            else:
                g.add_edges([Edge(u, v, mu, mv)], overwrite=True)
            m.e[frozenset((u, v))] = {u: mu, v: mv}
            log.append(('over', u, v, int(mu), int(mv)))
        elif op == 'dup_edge' and used:
            u, v = pick(used)
            e = Edge(u, v, *random_marks(rng, cn, Mark))
            ctx.raises(lambda: g.add_edge(e), 'refusal/connected-pair', f'{log}+{e}')
            log.append(('dup', u, v))
            refused += 1
        elif op == 'bad_mark' and pairs and cn != 'Graph':
            u, v = pick(pairs)
            bad = [(a, b) for a in (Mark.Tail, Mark.Arrow, Mark.Circle) for b in (Mark.Tail, Mark.Arrow, Mark.Circle)
                   if (cn == 'DiGraph' and (a, b) != (Mark.Tail, Mark.Arrow)) or
                   (cn == 'PDAG' and Mark.Circle in (a, b))]
            e = Edge(u, v, *pick(bad))
            over = bool(rng.random() < .5)
            ctx.raises(lambda: g.add_edge(e, overwrite=over), 'refusal/mark', f'{log}+{e!r}')
            log.append(('badmark', u, v, int(e[2]), int(e[3])))
            refused += 1
        elif op == 'add_node' and absent:
            x = absent[0]
            g.add_node(x)
            m.nodes.append(x)
            log.append(('node', x))
        elif op == 'add_nodes' and len(absent) > 1:
            k = int(rng.integers(2, len(absent) + 1))
            g.add_nodes(iter(absent[:k]))
            m.nodes += absent[:k]
            log.append(('nodes', absent[:k]))
        elif op == 'dup_node' and m.nodes:
            x = pick(m.nodes)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                g.add_node(x)
            ctx.check(any(issubclass(i.category, UserWarning) for i in w), 'warning/duplicate-node', f'{log}+{x!r}')
            log.append(('dupnode', x))
            refused += 1
        elif op == 'remove_edge' and used:
            u, v = pick(used)
            g.remove_edge(u, v)
            m.e.pop(frozenset((u, v)))
            log.append(('del', u, v))
            refused += 1
        elif op == 'remove_absent' and free:
            u, v = pick(free)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                g.remove_edge(u, v)
            ctx.check(any(issubclass(i.category, UserWarning) for i in w), 'warning/absent-edge', f'{log}+{u!r},{v!r}')
            log.append(('delabsent', u, v))
            refused += 1
        elif op == 'remove_node' and m.nodes:
            x = pick(m.nodes)
            g.remove_node(x)
            m.nodes.remove(x)
            m.e = {k: d for k, d in m.e.items() if x not in k}
            log.append(('delnode', x))
            refused += 1
        elif op == 'remove_nodes' and len(m.nodes) > 3:
            xs = [m.nodes[i] for i in rng.permutation(len(m.nodes))[:int(rng.integers(len(m.nodes) + 1))]]
            g.remove_nodes_from(xs)
            for x in xs:
                m.nodes.remove(x)
                m.e = {k: d for k, d in m.e.items() if x not in k}
            log.append(('delnodes', xs))
        elif op == 'missing' and absent and m.nodes:
            a, b = absent[0], pick(m.nodes)
            pair = (a, b) if rng.random() < .5 else (b, a)
            k = int(rng.integers(5))
            f = [lambda: g.add_edge(Edge(*pair)), lambda: g.remove_edge(*pair), lambda: g.is_connected(*pair),
                 lambda: g.remove_node(a), lambda: g.add_edge(Edge(*pair), overwrite=True)][k]
            ctx.raises(f, 'refusal/missing-node', f'{log}+{pair!r} kind {k}')
            log.append(('missing', k, pair))
            refused += 1
        elif op == 'copy':
            snapshots.append((copy.deepcopy(g), m.copy(), len(log)))
            log.append(('copy',))
            if rng.random() < .5:     # continue on the copy; the original must stay as it is
                g2, m2, _ = snapshots.pop()
                snapshots.append((g, m, len(log)))
                g, m = g2, m2
        else:
            continue
        ctx.event('op/' + op)
        compare(ctx, g, m, f'{log}', full=bool(rng.random() < .3))
        if ctx.violations:
            break
    for s, ms, at in snapshots:
        compare(ctx, s, ms, f'copy taken at step {at} of {log}')
        ctx.event('copies_checked')
    if inserted and refused:
        ctx.case(*log)


@monitor(quick=60, thorough=600, need={'constructed': 60})
def construction(ctx):
    """duplicate nodes are refused; the complete undirected graph joins every pair exactly once"""
    from cdmir.graph import Graph, DiGraph, PDAG, Mark
    rng = ctx.rng
    n = int(rng.integers(0, 9))
    names = G.labels(rng, n)
    ctx.case('construct', names)
    ctx.event('constructed')
    if n:
        for cls in (Graph, DiGraph, PDAG):
            ctx.raises(lambda: cls(names + [names[int(rng.integers(n))]]), 'refusal/duplicate-nodes', f'{names}')
    g = PDAG(names)
    g.create_complete_undirected_graph()
    m = Model(names)
    for i, u in enumerate(names):
        for v in names[i + 1:]:
            m.e[frozenset((u, v))] = {u: Mark.Tail, v: Mark.Tail}
    compare(ctx, g, m, f'complete graph on {names}')


@monitor(quick=200, thorough=600, need={'workflow_graphs': 80})
def workflows(ctx):
    """views of one graph agree with each other on graphs the library's own algorithms produced"""
    from cdmir.graph import Mark
    from cdmir.graph.dag2cpdag import dag2cpdag
    from cdmir.graph.pdag2dag import pdag2dag
    from cdmir.discovery.constraint.pc import PC
    from cdmir.utils.independence import Dsep
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    names = G.labels(rng, n)
    e = G.random_dag(rng, n)
    dag = G.build_dag(names, e)
    c = dag2cpdag(dag)
    d = pdag2dag(c)
    pc = PC()
    pc.fit(np.zeros((3, n)), var_names=names, indep_cls=Dsep, true_graph=dag)
    ctx.case('workflow', names, e)
    for tag, g in (('dag', dag), ('cpdag', c), ('extension', d), ('pc', pc.causal_graph), ('skeleton', pc.skeleton)):
        m = Model(list(g.nodes))
        for u in m.nodes:
            for v in m.nodes:
                x = g.get_edge(u, v) if u != v else None
                if x:
                    m.e.setdefault(frozenset((u, v)), {x[0]: x[2], x[1]: x[3]})
        ctx.check(m.nodes == names, 'workflow/nodes', f'{tag}: {m.nodes!r} from {names!r}')
        compare(ctx, g, m, f'{tag} of {G.show(names, e)}')
        ctx.event('workflow_graphs')
