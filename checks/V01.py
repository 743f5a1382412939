"""What plot_graph draws, read back from the pixels, and the circular layout."""
import matplotlib

matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.text import Text  # noqa: E402
import numpy as np  # noqa: E402

from vlib import graphs as G  # noqa: E402
from vlib.core import monitor  # noqa: E402

RULE = ('One case = one graph (class, node labels, marks on both ends of every edge, latent set, layout, radius, size) drawn and '
        'rasterised; the picture is sampled at points no other edge or node comes near. Distinct = graph and layout; '
        'non-trivial = at least one node.')
ASSUMPTIONS = ['node names have different texts', 'nodes are further apart than their diameters']


def segdist(p, a, b):
    p, a, b = map(np.asarray, (p, a, b))
    t = np.clip(np.dot(p - a, b - a) / max(np.dot(b - a, b - a), 1e-12), 0, 1)
    return float(np.linalg.norm(p - a - t * (b - a)))


def spread(rng, n, gap):
    while True:
        P = [rng.uniform(-.45, .45, 2)]
        for _ in range(2000):
            if len(P) == n:
                return P
            q = rng.uniform(-.45, .45, 2)
            if min(np.linalg.norm(q - p) for p in P) > gap:
                P.append(q)


def make_graph(rng, names):
    from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG
    kind = int(rng.integers(4))
    n, edges = len(names), {}
    p = float(rng.choice([.2, .4, .8]))
    if kind == 0:
        g = DiGraph(names)
        for u, v in G.random_dag(rng, n, p):
            g.add_edge(Edge(names[u], names[v], Mark.Tail, Mark.Arrow))
            edges[frozenset((u, v))] = {u: Mark.Tail, v: Mark.Arrow}
        return g, edges
    g = PDAG(names) if kind == 1 else Graph(names)
    marks = [Mark.Tail, Mark.Arrow] if kind == 1 else [Mark.Tail, Mark.Arrow, Mark.Circle]
    for i in range(n):
        for j in range(i):
            if rng.random() < p:
                u, v = (i, j) if rng.random() < .5 else (j, i)
                mu, mv = (marks[int(k)] for k in rng.integers(len(marks), size=2))
                if kind == 1 and mu == mv == Mark.Arrow:
                    mu = Mark.Tail
                g.add_edge(Edge(names[u], names[v], mu, mv))
                edges[frozenset((u, v))] = {u: mu, v: mv}
    return g, edges


def read(fig, dpi):
    fig.canvas.draw()
    a = np.asarray(fig.canvas.buffer_rgba())[..., :3].astype(float)
    return a.mean(axis=2)


@monitor(600, 6000, need={'drawn': 450, 'arrow': 300, 'tail': 300, 'circle': 120, 'absent': 300, 'latent': 100})
def pictures(ctx):
    """every node, latent filling, edge and mark is in the picture where it belongs, and nothing else"""
    from cdmir.graph import Mark
    from cdmir.visual import circular_layout, plot_graph
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    names = G.labels(rng, n)
    if rng.random() < .15:
        names = [f'measurement of quantity number {i + 1} (long name)' for i in range(n)]
    g, edges = make_graph(rng, names)
    radius = float(rng.choice([.025, .04, .06]))
    ratio = float(rng.choice([1 / 6, .25]))
    dpi, size = int(rng.choice([150, 220])), [None, (6, 6), (7, 5)][int(rng.integers(3))]
    kw = {}
    if rng.random() < .5:
        sort = bool(rng.integers(2))
        ck = dict({'sort_node': True} if sort else {}, **({'scale': .4} if radius == .06 else {}))
        layout = (lambda h: circular_layout(h, **ck)) if ck else circular_layout
        pos = circular_layout(g, **ck)
        pos = [np.array(pos[str(v)]) for v in names]
    else:
        pos = [p * (.9 if radius == .06 else 1) for p in spread(rng, n, .16)]
        layout = lambda h: {str(v): tuple(pos[i]) for i, v in enumerate(names)}  # noqa
    lat = [i for i in range(n) if rng.random() < .35]
    form = int(rng.integers(4))
    if lat or form:
        vals = [names[i] for i in lat] if form % 2 else [str(names[i]) for i in lat]
        kw['is_latent'] = set(vals) if form < 2 else vals
    if radius != .04:
        kw['node_radius'] = radius
    if ratio == .25:
        kw['edge_circle_mark_ratio'] = ratio
    if size:
        kw['figsize'] = size
    before = G.read_graph(g) if hasattr(G, 'read_graph') else None
    fig = plot_graph(g, layout, dpi=dpi, **kw)
    try:
        tag = f'{type(g).__name__} {names!r} ' + '; '.join(str(e) for e in g.edges) + f' latent={kw.get("is_latent")!r}'
        ctx.event('drawn')
        ctx.case(tag, [tuple(np.round(p, 6)) for p in pos])
        ctx.check(fig.dpi == dpi, 'figure/dpi', tag)
        if size:
            ctx.check(tuple(np.round(fig.get_size_inches(), 6)) == size, 'figure/size', tag)
        texts = [t for t in fig.findobj(Text) if t.get_text() and t.get_visible()]
        img0 = read(fig, dpi)
        ax = fig.axes[0]
        tr = ax.transData
        H = img0.shape[0]
        C = [np.asarray(tr.transform(p + .5)) for p in pos]
        R = float(np.linalg.norm(tr.transform((radius, 0)) - tr.transform((0, 0))))
        pt = dpi / 72
        for i, v in enumerate(names):
            inside = ((C[i] > 0) & (C[i] < [img0.shape[1], H])).all()
            ctx.check(inside, 'node/outside', lambda: f'{tag}: {v!r} at {C[i]}')
            here = [t.get_text() for t in texts
                    if np.linalg.norm(t.get_transform().transform(t.get_position()) - C[i]) < .5 * R]
            ctx.check(here == [str(v)] * bool(str(v)), 'label', lambda: f'{tag}: {v!r} is labelled {here}')
            if str(v).strip():
                ctx.event('labels')
        ctx.check(len(texts) == sum(1 for v in names if str(v)), 'label/extra',
                  lambda: f'{tag}: {[t.get_text() for t in texts]}')
        for t in texts:
            t.set_visible(False)
        img = read(fig, dpi)

        def at(p):
            x, y = int(np.floor(p[0])), int(np.floor(H - p[1]))
            if not (1 <= x < img.shape[1] - 1 and 1 <= y < H - 1):
                return None
            return float(img[y, x])

        ends = [tuple(e) for e in edges]

        def free(p, edge=None, node=None, room=2.5):
            """no other edge (with its marks) and no node near p"""
            for e in ends:
                if set(e) != edge and segdist(p, C[e[0]], C[e[1]]) < (room + 3) * pt + (R * ratio if room else 0):
                    return False
            return all(i == node or np.linalg.norm(p - C[i]) > R + 1.5 * pt for i in range(n))

        for i in range(n):
            p = C[i] + (0, .4 * R)
            if all(i in e or segdist(C[i], C[e[0]], C[e[1]]) > R + 4 * pt for e in ends):
                val = at(p)
                ctx.event('latent' if i in lat else 'measured')
                ctx.check(val is not None and (val > 245 if i in lat else 190 < val < 220), 'node/fill',
                          lambda: f'{tag}: {names[i]!r} is {"latent" if i in lat else "measured"}, grey level {val}')
                ang = [np.arctan2(*(C[j] - C[i])[::-1]) for e in edges if i in e for j in e if j != i]
                for a in np.linspace(0, 2 * np.pi, 24, endpoint=False):
                    if all(abs(np.angle(np.exp(1j * (a - b)))) > .5 for b in ang):
                        rim = C[i] + R * np.array([np.cos(a), np.sin(a)])
                        d = np.array([np.cos(a), np.sin(a)])
                        vals = [at(rim + k * d) for k in np.arange(-1.5, 1.6, .5)]
                        if None not in vals and free(rim, None, i):
                            ctx.event('rims')
                            ctx.check(min(vals) < 120, 'node/border', lambda: f'{tag}: {names[i]!r} at angle {a}: {vals}')
        for i in range(n):
            for j in range(i):
                e = frozenset((i, j))
                d = C[j] - C[i]
                L = float(np.linalg.norm(d))
                d = d / L
                nrm = np.array([-d[1], d[0]])
                for f in (.4, .5, .6):
                    m = C[i] + d * L * f
                    if not free(m, e) or min(f, 1 - f) * L < R + 8 * pt + 2 * R * ratio:
                        continue
                    val = at(m)
                    if val is None:
                        continue
                    ctx.event('present' if e in edges else 'absent')
                    ctx.check(val < 120 if e in edges else val > 245, 'edge/' + ('missing' if e in edges else 'extra'),
                              lambda: f'{tag}: {names[i]!r} .. {names[j]!r} grey level {val}')
                if e not in edges or L < 2 * R + 16 * pt + 8 * R * ratio:
                    continue
                for a, s in ((i, 1), (j, -1)):
                    mark = edges[e][a]
                    rim = C[a] + s * d * R
                    c = rim + s * d * R * ratio               # centre of a circle mark
                    back = rim + s * d * 3.2 * pt             # inside an arrow head
                    if not all(free(q, e, a) for q in (rim + s * d * 2 * pt, c, back)):
                        continue
                    ctx.event(mark.name.lower())
                    side = [at(back + k * nrm * 1.15 * pt) for k in (1, -1)]
                    mid = at(c)
                    if None in side or mid is None:
                        continue
                    info = lambda: f'{tag}: end {names[a]!r} of {names[i]!r} .. {names[j]!r} is {mark}: centre {mid}, sides {side}'  # noqa
                    if mark == Mark.Circle:
                        ring = [min(at(c + R * ratio * (np.cos(t) * d + np.sin(t) * nrm) + k * (np.cos(t) * d + np.sin(t) * nrm))
                                    for k in (-1, -.5, 0, .5, 1)) for t in (np.pi / 2, -np.pi / 2)]
                        ctx.check(mid > 235, 'mark/circle', info)
                        ctx.check(max(ring) < 150, 'mark/circle-ring', lambda: info() + f' ring {ring}')
                        out = at(rim + s * d * (2 * R * ratio + 3 * pt))
                        ctx.check(out < 120, 'mark/circle-line', lambda: info() + f' beyond {out}')
                        q = rim + s * d * (2 * R * ratio + 3.2 * pt)
                        both = [at(q + k * nrm * 1.15 * pt) for k in (1, -1)]
                        if None not in both and free(q, e, a):
                            ctx.check(min(both) > 200, 'mark/circle-arrow', lambda: info() + f' beside the line {both}')
                    else:
                        ctx.check(mid < 120, 'mark/gap', info)
                        if mark == Mark.Arrow:
                            ctx.check(max(side) < 120, 'mark/arrow', info)
                        else:
                            ctx.check(min(side) > 200, 'mark/tail', info)
        if before is not None:
            ctx.check(G.read_graph(g) == before, 'graph-changed', tag)
    finally:
        plt.close(fig)


@monitor(400, 3000, need={'layouts': 400})
def layouts(ctx):
    """circular_layout: one point per node on the circle, evenly spaced clockwise from the top, in node or sorted order"""
    from cdmir.graph import Graph
    from cdmir.visual import circular_layout
    rng = ctx.rng
    n = int(rng.integers(0, 16))
    names = G.labels(rng, n)
    g, _ = make_graph(rng, names) if n else (Graph(), None)
    sort = bool(rng.integers(2))
    kw = {'sort_node': True} if sort else {}
    scale = .45
    if rng.random() < .5:
        scale = kw['scale'] = float(rng.uniform(.1, 2))
    pos = circular_layout(g, **kw)
    ctx.event('layouts')
    tag = f'{names!r} {kw}'
    if n:
        ctx.case(tag)
    order = [str(v) for v in names]
    if sort:
        order.sort()
    if not ctx.check(set(pos) == set(order) and len(pos) == n, 'layout/keys', lambda: f'{tag}: {pos}'):
        return
    z = np.array([complex(*pos[v]) for v in order])
    want = scale * 1j * np.exp(-2j * np.pi * np.arange(n) / max(n, 1))
    ctx.check(np.allclose(z, want, atol=1e-9), 'layout/positions', lambda: f'{tag}: {pos}')
