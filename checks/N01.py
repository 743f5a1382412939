"""Continuous acyclic structure learning (squared-loss and entropy): models, losses, optimiser wrapper and estimates."""
import numpy as np
import scipy.optimize as so

from vlib import simtools as S
from vlib.core import Skip, monitor

RULE = ('One case = one model with random parameters (judged against numpy formulas and by perturbing inputs), one loss or '
        'bounded least-squares problem, or one simulated data set whose estimate is judged for acyclicity, thresholding, '
        'stationarity of the declared objective and recovery. Distinct = data or parameter seed and settings; non-trivial = '
        'a model with at least two variables, an estimate with an edge.')
ASSUMPTIONS = ['default dtype double, as the run functions set it', 'at most four variables where acyclicity follows from the '
               'constraint tolerance', 'recovery only on easy settings and judged over many data sets']
BASE = 'cdmir.discovery.score_based.entropy_based.entropy_based_discovery.'


def mod(name):
    import importlib
    import torch
    torch.set_default_dtype(torch.double)
    torch.set_num_threads(1)
    return importlib.import_module(BASE + name)


def npy(t):
    return t.detach().numpy() if hasattr(t, 'detach') else np.asarray(t)


def sig(x):
    return 1 / (1 + np.exp(-x))


def ref_h(A):
    """closed-walk weight tr((I + A/d)^d) - d"""
    d = len(A)
    return np.trace(np.linalg.matrix_power(np.eye(d) + A / d, d)) - d


def randomise(rng, model, scale=1.):
    """random non-negative parameters inside the declared bounds, some blocks switched off"""
    import torch
    for p in model.parameters():
        v = rng.normal(size=tuple(p.shape)) * scale
        if hasattr(p, 'bounds'):
            b = list(p.bounds)
            v = np.abs(v)
            off = np.array([lo == 0 and hi == 0 for lo, hi in b]).reshape(v.shape)
            v[off] = 0.
        with torch.no_grad():
            p.copy_(torch.from_numpy(np.ascontiguousarray(v)))


@monitor(quick=120, thorough=2500, cpu=60, need={'models': 80, 'dependent': 100, 'independent': 100})
def models(ctx):
    """networks: forward pass, who depends on whom, constraint, penalties and bounds"""
    import torch
    rng = ctx.rng
    d = int(rng.integers(1, 6))
    kind = str(rng.choice(['mlp', 'sobolev', 'linear']))
    ent = bool(rng.random() < .5)
    N = mod('nonlinear_ent' if ent else 'nonlinear')
    n = int(rng.integers(1, 8))
    x = rng.normal(size=(n, d)) * 2
    tx = torch.from_numpy(x.copy())
    if kind == 'mlp':
        dims = [d] + [int(v) for v in rng.integers(1, 6, int(rng.integers(0, 4)))] + [1]
        bias = bool(rng.random() < .5)
        m = N.NotearsMLP(dims, bias=bias)
        pos, neg = m.fc1_pos, m.fc1_neg
        per = dims[1]
    elif kind == 'sobolev':
        k = int(rng.integers(1, 5)) if rng.random() < .6 else int(rng.integers(5, 10))
        m = N.NotearsSobolev(d, k)
        pos, neg = m.fc1_pos, m.fc1_neg
        ctx.check(not npy(pos.weight).any() and not npy(neg.weight).any(), 'sobolev-start', 'initial weights are not zero')
    else:
        m = mod('linear_ent').linear_nonGauss(d, bias=False)
        pos, neg = m.linear_pos, m.linear_neg
    what = f'{kind} d={d} {dims if kind == "mlp" else ""}'
    # bounds: exactly the weights through which a variable would explain itself are pinned to zero, the rest non-negative
    for layer in (pos, neg):
        b = list(layer.weight.bounds)
        ctx.check(len(b) == layer.weight.numel(), 'bounds', f'{what}: {len(b)} bounds for {layer.weight.numel()} weights')
        ctx.check(all(lo == 0 and hi in (0, None) for lo, hi in b), 'bounds', f'{what}: {b[:4]}')
    randomise(rng, m, float(rng.choice([.3, 1.])))
    # switch off some links (all hidden units of target j fed by source i)
    P, Q = npy(pos.weight).copy(), npy(neg.weight).copy()
    link = (rng.random((d, d)) < .5) | (rng.random() < .2)
    for i in range(d):
        for j in range(d):
            if not link[i, j]:
                if kind == 'mlp':
                    P[j * per:(j + 1) * per, i] = Q[j * per:(j + 1) * per, i] = 0
                elif kind == 'sobolev':
                    P[j, i * k:(i + 1) * k] = Q[j, i * k:(i + 1) * k] = 0
                else:
                    P[j, i] = Q[j, i] = 0
    with torch.no_grad():
        pos.weight.copy_(torch.from_numpy(P))
        neg.weight.copy_(torch.from_numpy(Q))
    ctx.case(what, n, x[0].round(4).tolist())
    ctx.event('models')
    F = P - Q
    # forward
    if kind == 'mlp':
        h = x @ F.T + ((npy(pos.bias) - npy(neg.bias)) if bias else 0)
        h = h.reshape(n, d, per)
        for fc in m.fc2:
            h = np.einsum('ndm,dmk->ndk', sig(h), npy(fc.weight)) + (npy(fc.bias) if bias else 0)
        want = h[:, :, 0]
        A = np.array([[np.sum(F[j * per:(j + 1) * per, i] ** 2) for j in range(d)] for i in range(d)])
    elif kind == 'sobolev':
        mu = [2 / ((2 * q + 1) * np.pi) for q in range(k)]
        phi = np.stack([[u * np.sin(x[:, i] / u) for u in mu] for i in range(d)])     # [d, k, n]
        want = np.array([[sum(F[j, i * k + q] * phi[i, q, r] for i in range(d) for q in range(k)) for j in range(d)]
                         for r in range(n)])
        A = np.array([[np.sum(F[j, i * k:(i + 1) * k] ** 2) for j in range(d)] for i in range(d)])
    else:
        want = x @ F.T
        A = F.T ** 2
    out = m(tx)
    ctx.close(npy(out), want, 'forward', f'{what}: forward pass', 1e-9, 1e-10)
    ctx.check(np.array_equal(npy(tx), x), 'argument-changed', f'{what}: input')
    # adjacency against behaviour
    W = m.weight_test() if kind == 'linear' else m.fc1_to_adj()
    ctx.check(np.shape(W) == (d, d) and isinstance(W, np.ndarray), 'adjacency', f'{what}: {type(W)} {np.shape(W)}')
    ctx.close(np.asarray(W) ** 2, A, 'adjacency', f'{what}: squared adjacency', 1e-9, 1e-12)
    if kind == 'linear':
        ctx.close(W, F.T, 'adjacency', f'{what}: signed weights', 1e-12, 1e-12)
    else:
        ctx.check((np.asarray(W) >= 0).all(), 'adjacency', f'{what}: negative norm')
    z = rng.normal(size=(4, d))
    f0 = npy(m(torch.from_numpy(z.copy())))
    for i in range(d):
        z2 = z.copy()
        z2[:, i] += rng.uniform(.3, .7, 4)
        f1 = npy(m(torch.from_numpy(z2)))
        for j in range(d):
            dep = not np.array_equal(f0[:, j], f1[:, j])
            if W[i, j] == 0:
                ctx.event('independent')
                ctx.check(not dep or np.allclose(f0[:, j], f1[:, j], rtol=0, atol=1e-12), 'adjacency-meaning',
                          f'{what}: weight {i}->{j} is 0 but output {j} depends on input {i}')
            elif W[i, j] > 1e-3 and kind != 'mlp':
                ctx.event('dependent')
                ctx.check(dep, 'adjacency-meaning', f'{what}: weight {i}->{j} is {W[i, j]} but output {j} ignores input {i}')
            if i == j:
                ctx.check(W[i, i] == 0, 'self-explanation', f'{what}: variable {i} explains itself within the bounds')
    # constraint
    hv = float(npy(m.h_func()))
    ctx.close(hv, ref_h(A), 'constraint', f'{what}: h', 1e-8, 1e-8)
    # penalties
    m(tx)
    if kind == 'linear':
        ctx.close(float(npy(m.abs_L1())), np.abs(F).sum(), 'penalty', f'{what}: l1', 1e-9, 1e-9)
        l2 = float(npy(m.L2()))
        ctx.check(any(np.isclose(l2, v, rtol=1e-8, atol=1e-10) for v in ((want ** 2).sum() / n, (F ** 2).sum())), 'penalty-l2',
                  f'{what}: l2 is {l2}, neither of the fitted values ({(want ** 2).sum() / n}) nor of the weights')
    else:
        ctx.close(float(npy(m.fc1_l1_reg())), (P + Q).sum(), 'penalty', f'{what}: l1', 1e-9, 1e-9)
        if kind == 'mlp':
            want2 = (F ** 2).sum() + sum((npy(fc.weight) ** 2).sum() for fc in m.fc2)
        else:
            want2 = (want ** 2).sum() / n
        ctx.close(float(npy(m.l2_reg())), want2, 'penalty', f'{what}: l2', 1e-9, 1e-9)
    # gradients of h and penalties flow to both halves: compare with central differences on one weight
    if d > 1:
        h = m.h_func()
        m.zero_grad()
        h.backward()
        idx = tuple(int(rng.integers(s)) for s in P.shape)
        for layer, sgn in ((pos, 1), (neg, -1)):
            g = npy(layer.weight.grad)[idx]
            eps = 1e-5
            v = []
            for s in (1, -1):
                F2 = F.copy()
                F2[idx] += s * sgn * eps
                if kind == 'mlp':
                    A2 = np.array([[np.sum(F2[j * per:(j + 1) * per, i] ** 2) for j in range(d)] for i in range(d)])
                elif kind == 'sobolev':
                    A2 = np.array([[np.sum(F2[j, i * k:(i + 1) * k] ** 2) for j in range(d)] for i in range(d)])
                else:
                    A2 = F2.T ** 2
                v.append(ref_h(A2))
            num = (v[0] - v[1]) / (2 * eps)
            ctx.close(g, num, 'constraint-gradient', f'{what}: dh/dw', 1e-4, 1e-5 * (1 + abs(v[0])))


@monitor(quick=200, thorough=4000, cpu=30, need={'dags': 30, 'cyclic': 25})
def constraint(ctx):
    """h is zero exactly on weighted DAGs, in every variable order"""
    import torch
    rng = ctx.rng
    d = int(rng.integers(1, 8))
    ring = ctx.index % 5 == 0       # one cycle through every variable, of up to 11
    if ring:
        d = int(rng.integers(4, 12))
    m = mod('linear_ent').linear_nonGauss(d)
    if ring:
        p = rng.permutation(d)
        W = np.zeros((d, d))
        W[p, np.roll(p, 1)] = rng.uniform(2, 3, d) * rng.choice([-1, 1], d)
        if rng.random() < .5:
            W[p[0], p[-1]] = 0
    elif rng.random() < .5:
        W = S.random_dag(rng, d, rng.uniform(.2, 1)) * rng.uniform(.1, 3, (d, d)) * rng.choice([-1, 1], (d, d))
    else:
        W = rng.normal(size=(d, d)) * (rng.random((d, d)) < rng.uniform(.2, .6))
        np.fill_diagonal(W, 0)
    with torch.no_grad():
        m.linear_pos.weight.copy_(torch.from_numpy(np.maximum(W, 0).T.copy()))
        m.linear_neg.weight.copy_(torch.from_numpy(np.maximum(-W, 0).T.copy()))
    M, cyc = (W != 0).astype(float), False
    Q = np.eye(d)
    for _ in range(d):
        Q = Q @ M
        cyc |= bool(np.trace(Q) > 0)
    h = float(npy(m.h_func()))
    ctx.case(W.round(4).tolist())
    ctx.event('cyclic' if cyc else 'dags')
    sc = np.abs(W).max(initial=1) ** 2
    if cyc:
        ctx.check(h > 0, 'constraint', f'cyclic {W.tolist()} has h={h}')
    else:
        ctx.check(abs(h) < 1e-9 * max(1, sc / d) ** d, 'constraint', f'acyclic {W.tolist()} has h={h}')
    ctx.close(h, ref_h(W * W), 'constraint', f'{W.tolist()}', 1e-7, 1e-8 * max(1, sc))
    ctx.close(m.weight_test(), W, 'adjacency', 'weights', 1e-12, 1e-12)


def ref_mentappr(r):
    r = r.ravel()
    sd = r.std(ddof=1)
    u = (r - r.mean()) / sd
    k1, k2 = 36 / (8 * np.sqrt(3) - 9), 24 / (16 * np.sqrt(3) - 27)
    neg = k2 * (np.mean(np.exp(-u ** 2 / 2)) - np.sqrt(.5)) ** 2 + k1 * np.mean(u * np.exp(-u ** 2 / 2)) ** 2
    return .5 * np.log(2 * np.pi) + .5 - neg + np.log(sd)


def ref_moments(r):
    r = r.ravel()
    u = (r - r.mean()) / r.std(ddof=1)
    s2 = np.mean(u ** 2)
    k3, k4 = np.mean(u ** 3) / s2 ** 1.5, np.mean(u ** 4) / s2 ** 2
    return .5 * np.log(r.var(ddof=1)) - k3 ** 2 / 12 - k4 ** 2 / 48, -np.mean(np.log(np.cosh(u))) ** 2


def ref_knn1(R, eps):
    out = 0.
    for c in range(R.shape[1]):
        u = (R[:, c] - R[:, c].mean()) / R[:, c].std(ddof=1)
        D = np.abs(u[:, None] - u[None])
        np.fill_diagonal(D, np.inf)
        out += np.sum(np.log(D.min(axis=1) ** 2 + eps))
    return out


@monitor(quick=300, thorough=5000, cpu=30, need={'losses': 1500, 'gradients': 100})
def losses(ctx):
    """entropy and squared losses against their formulas; shift and permutation invariance; gradients"""
    import torch
    U, rng = mod('utils'), ctx.rng
    n, d = int(rng.integers(4, 40)), int(rng.integers(1, 5))
    kind = int(rng.integers(4))
    X = [rng.normal(size=(n, d)), rng.exponential(size=(n, d)), rng.uniform(-1, 1, (n, d)),
         rng.gumbel(size=(n, d))][kind] * float(10 ** rng.uniform(-2, 2)) + rng.normal()
    Y = rng.normal(size=(n, d)) * (rng.random() < .8)
    R = X - Y
    t = lambda a: torch.from_numpy(np.ascontiguousarray(a))
    ho, g1 = ref_moments(R)
    refs = {'entropy_loss_mentappr': ref_mentappr(R), 'entropy_loss_high_order': ho, 'entropy_loss_G1': g1,
            'entropy_loss_G1_high_order': ho + g1, 'variance_loss': R.std(ddof=1)}
    ctx.case(n, d, X[0].tolist())
    for nm, want in refs.items():
        a, b = t(Y.copy()), t(X.copy())
        v = float(npy(getattr(U, nm)(a, b)))
        ctx.event('losses')
        ctx.close(v, want, nm, f'n={n} d={d}', 1e-7, 1e-8)
        ctx.check(np.array_equal(npy(a), Y) and np.array_equal(npy(b), X), 'argument-changed', nm)
        p = rng.permutation(n)
        c = float(rng.normal())
        ctx.close(float(npy(getattr(U, nm)(t(Y[p]), t(X[p] + c)))), want, nm + '-invariance', 'records permuted, data shifted', 1e-6, 1e-7)
    k = 1
    v = float(npy(U.entropy_loss_knn(t(Y.copy()), t(X.copy()), k=k) if rng.random() < .5 else U.entropy_loss_knn(t(Y.copy()), t(X.copy()))))
    ctx.event('losses')
    ctx.close(v, ref_knn1(R, 1e-5), 'entropy_loss_knn', f'n={n} d={d}', 1e-6, 1e-6)
    for nm in ('linear', 'nonlinear', 'nonlinear_ent', 'linear_ent'):
        M = mod(nm)
        if hasattr(M, 'squared_loss'):
            ctx.close(float(npy(M.squared_loss(t(Y), t(X)))), .5 * (R ** 2).sum() / n, 'squared_loss', nm, 1e-9, 1e-12)
            ctx.event('losses')
    if ctx.index % 2 == 0:
        nm = str(rng.choice(['entropy_loss_mentappr', 'entropy_loss_high_order', 'entropy_loss_G1']))
        f = {'entropy_loss_mentappr': ref_mentappr, 'entropy_loss_high_order': lambda r: ref_moments(r)[0],
             'entropy_loss_G1': lambda r: ref_moments(r)[1]}[nm]
        y = t(Y.copy()).requires_grad_(True)
        getattr(U, nm)(y, t(X)).backward()
        V = rng.normal(size=Y.shape)
        e = 1e-5 * np.abs(R).max()
        num = (f(X - (Y + e * V)) - f(X - (Y - e * V))) / (2 * e)
        ctx.event('gradients')
        ctx.close(float((npy(y.grad) * V).sum()), num, nm + '-gradient', f'n={n}', 1e-4, 1e-5 * (1 + 1 / R.std()))


@monitor(quick=150, thorough=3000, cpu=30, need={'layers': 100})
def layers(ctx):
    """locally connected layer: one independent linear map per variable"""
    import torch
    LC, rng = mod('locally_connected').LocallyConnected, ctx.rng
    n, d, a, b = (int(v) for v in rng.integers(1, 7, 4))
    bias = bool(rng.random() < .5)
    L = LC(d, a, b, bias=bias)
    ctx.check(tuple(L.weight.shape) == (d, a, b), 'layer-shape', f'{tuple(L.weight.shape)}')
    ctx.check(np.abs(npy(L.weight)).max() <= 1 / np.sqrt(a) + 1e-12, 'layer-start', 'initial weights')
    ctx.check((L.bias is None) == (not bias), 'layer-bias', f'bias={bias}')
    x = rng.normal(size=(n, d, a))
    t = torch.from_numpy(x.copy()).requires_grad_(True)
    y = L(t)
    want = np.einsum('nda,dab->ndb', x, npy(L.weight)) + (npy(L.bias) if bias else 0)
    ctx.case(n, d, a, b, bias)
    ctx.event('layers')
    ctx.close(npy(y), want, 'layer', f'n={n} d={d} {a}->{b} bias={bias}', 1e-10, 1e-12)
    G = rng.normal(size=(n, d, b))
    (y * torch.from_numpy(G)).sum().backward()
    ctx.close(npy(t.grad), np.einsum('ndb,dab->nda', G, npy(L.weight)), 'layer-gradient', 'input', 1e-9, 1e-11)
    ctx.close(npy(L.weight.grad), np.einsum('nda,ndb->dab', x, G), 'layer-gradient', 'weight', 1e-9, 1e-11)
    if bias:
        ctx.close(npy(L.bias.grad), G.sum(axis=0), 'layer-gradient', 'bias', 1e-9, 1e-11)
    L2 = LC(d, a, b, bias=bias)
    ctx.check(not np.array_equal(npy(L.weight), npy(L2.weight)), 'layer-start', 'two layers start equal')


@monitor(quick=150, thorough=3000, cpu=60, need={'solved': 100, 'active': 40})
def optimiser(ctx):
    """the L-BFGS-B wrapper solves bounded convex problems spread over several parameters, to the known optimum"""
    import torch
    Opt, rng = mod('lbfgsb_scipy').LBFGSBScipy, ctx.rng
    q, r = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n = int(rng.integers(q * r + r + 4, 30))
    Xa = rng.normal(size=(n, q * r))
    Xb = rng.normal(size=(n, r))
    y = rng.normal(size=n) * 2
    a = torch.nn.Parameter(torch.from_numpy(rng.normal(size=(q, r))))
    b = torch.nn.Parameter(torch.from_numpy(rng.normal(size=r)))
    unused = torch.nn.Parameter(torch.from_numpy(rng.normal(size=2)))
    lo = [-np.inf] * (q * r + r)
    hi = [np.inf] * (q * r + r)
    kinds = [(None, None), (0, None), (0, 0), (None, -.1), (-.5, .5)]
    if rng.random() < .8:
        bs = [kinds[int(rng.integers(5))] for _ in range(q * r)]
        a.bounds = bs
        for i, (l, h) in enumerate(bs):
            lo[i], hi[i] = -np.inf if l is None else l, np.inf if h is None else h
    if rng.random() < .5:
        bs = [kinds[int(rng.integers(5))] for _ in range(r)]
        b.bounds = bs
        for i, (l, h) in enumerate(bs):
            lo[q * r + i], hi[q * r + i] = -np.inf if l is None else l, np.inf if h is None else h
    order = [a, b] if rng.random() < .7 else [b, a]
    if rng.random() < .3:
        order.insert(int(rng.integers(3)), unused)
    u0 = npy(unused).copy()
    opt = Opt(order)
    tX, tY, ty = torch.from_numpy(Xa), torch.from_numpy(Xb), torch.from_numpy(y)

    def closure():
        opt.zero_grad()
        loss = ((tX @ a.reshape(-1) + tY @ b - ty) ** 2).sum()
        loss.backward()
        return loss

    opt.step(closure)
    X = np.hstack([Xa, Xb])
    lo, hi = np.array(lo), np.array(hi)
    fix = lo == hi
    w = np.zeros(len(lo))
    if (~fix).any():
        w[~fix] = so.lsq_linear(X[:, ~fix], y, (lo[~fix], hi[~fix]), tol=1e-14).x
    got = np.concatenate([npy(a).ravel(), npy(b).ravel()])
    ctx.case(q, r, n, y[0])
    ctx.event('solved')
    ctx.event('active', ((w <= lo + 1e-6) | (w >= hi - 1e-6)).any())
    ctx.check((got >= lo - 1e-9).all() and (got <= hi + 1e-9).all(), 'bounds-violated', f'{got} not in {lo, hi}')
    f = lambda v: ((X @ v - y) ** 2).sum()
    ctx.check(f(got) <= f(w) * 1.04 + 1e-5, 'not-optimal', f'objective {f(got)} at {got}, optimum {f(w)} at {w}')
    ctx.check(tuple(a.shape) == (q, r) and tuple(b.shape) == (r,), 'shape', f'{tuple(a.shape)} {tuple(b.shape)}')
    if any(p is unused for p in order):
        ctx.check(np.array_equal(npy(unused), u0), 'unused-changed', 'a parameter outside the objective moved')
    if ctx.index % 10 == 0:
        ctx.raises(lambda: Opt([{'params': [a]}, {'params': [b]}]), 'groups-accepted', 'two parameter groups', ValueError)


def acyclic(A):
    A = (np.asarray(A) != 0).astype(float)
    M = np.eye(len(A))
    for _ in range(len(A)):
        M = ((M @ A) > 0).astype(float)
    return not M.any()


def judge_estimate(ctx, W, d, thr, what):
    if not ctx.check(isinstance(W, np.ndarray) and W.shape == (d, d) and np.isfinite(W).all(), 'estimate-shape', f'{what}: {W}'):
        return False
    ctx.check(not W.diagonal().any(), 'self-loop', f'{what}: {W.tolist()}')
    nz = np.abs(W[W != 0])
    ctx.check((nz >= thr).all(), 'threshold', f'{what}: threshold {thr}, {W.tolist()}')
    if thr >= .3:
        ctx.check(acyclic(W), 'cyclic-estimate', f'{what}: {W.tolist()}')
        ctx.event('acyclic')
    return True


@monitor(quick=120, thorough=1500, cpu=200, need={'estimates': 100, 'acyclic': 60, 'stationary': 30, 'recoverable': 2})
def linear(ctx):
    """notears_linear: thresholded acyclic estimate, stationary for loss + l1 on its support, right on easy data"""
    L, rng = mod('linear'), ctx.rng
    loss = str(rng.choice(['l2', 'l2', 'logistic', 'poisson']))
    d = int(rng.choice([1, 2, 2, 2, 3, 4]))
    A = S.random_dag(rng, d, rng.uniform(.5, .9))
    W = A * rng.uniform(.8, 1.6, A.shape) * rng.choice([-1, 1], A.shape)
    n = 1000
    if loss == 'poisson':
        W = A * rng.uniform(.2, .35, A.shape) * rng.choice([-1, 1], A.shape)
    order, X = [], np.zeros((n, d))
    while len(order) < d:
        order += [j for j in range(d) if j not in order and all(i in order for i in np.flatnonzero(A[:, j]))]
    for j in order:
        e = X @ W[:, j]
        X[:, j] = e + rng.normal(size=n) if loss == 'l2' else (rng.random(n) < sig(e)) * 1. if loss == 'logistic' \
            else rng.poisson(np.exp(np.minimum(e, 3)))
    if loss == 'l2' and rng.random() < .5:
        X += rng.normal(size=d) * 5
    lam = float(rng.choice([0, .01, .1]))
    keep = X.copy()
    what = f'{loss} d={d} lambda={lam}'
    W3 = L.notears_linear(X, lam, loss) if rng.random() < .5 else L.notears_linear(X, lam, loss, w_threshold=.3)
    ctx.case(what, X[0].tolist())
    ctx.event('estimates')
    ctx.check(np.array_equal(X, keep), 'argument-changed', f'{what}: data')
    if not judge_estimate(ctx, W3, d, .3, what):
        return
    W0 = L.notears_linear(X, lam, loss, w_threshold=0.)
    if not judge_estimate(ctx, W0, d, 0, what):
        return
    ctx.check(np.array_equal(W3, np.where(np.abs(W0) < .3, 0, W0)), 'threshold', f'{what}: {W3.tolist()} from {W0.tolist()}')
    thr = float(rng.choice([1e-6, 1e-4, .002, .05, .9]))
    Wt = L.notears_linear(X, lam, loss, w_threshold=thr)
    ctx.check(np.array_equal(Wt, np.where(np.abs(W0) < thr, 0, W0)), 'threshold', f'{what} {thr}: {Wt.tolist()} from {W0.tolist()}')
    Xc = X - X.mean(axis=0) if loss == 'l2' else X
    M = Xc @ W0
    G = Xc.T @ ({'l2': M, 'logistic': sig(M), 'poisson': np.exp(M)}[loss] - Xc) / n
    big = np.abs(W0) > .15
    scale = max(1., np.abs(Xc.T @ Xc / n).max())
    ctx.event('stationary', big.any())
    err = np.abs(G + lam * np.sign(W0))[big].max(initial=0)
    ctx.check(err < .04 * scale, 'not-stationary', f'{what}: gradient {err} on the support of {W0.round(3).tolist()} (scale {scale})')
    # the weights are not needlessly small: entries left out must not improve the objective while keeping the graph acyclic
    if loss == 'l2' and d == 2 and A.any() and lam < .1:
        ctx.event('recoverable')
        ctx.check(np.array_equal(W3 != 0, A != 0), 'not-recovered', f'{what}: {W3.tolist()}, true {W.tolist()}')
        ctx.check(np.abs(W3 - W).max() < .3, 'not-recovered', f'{what}: {W3.tolist()}, true {W.tolist()}')
    if ctx.index % 10 == 0:
        ctx.raises(lambda: L.notears_linear(X, .1, 'nope'), 'unknown-loss', 'loss type', ValueError)


@monitor(quick=48, thorough=600, cpu=300, need={'estimates': 40, 'acyclic': 5, 'stationary': 25})
def entropy_linear(ctx):
    """entropy estimator: acyclic estimate, stationary for entropy + l1 on its support, right on easy pairs"""
    E, U, rng = mod('linear_ent'), mod('utils'), ctx.rng
    d = int(rng.choice([1, 2, 2, 3, 4]))
    A = S.random_dag(rng, d, rng.uniform(.4, .9))
    W = A * rng.uniform(.8, 1.6, A.shape) * rng.choice([-1, 1], A.shape)
    n = 600
    kind = str(rng.choice(['uniform', 'gauss', 'exp']))
    Z = {'uniform': rng.uniform(-np.sqrt(3), np.sqrt(3), (n, d)), 'gauss': rng.normal(size=(n, d)),
         'exp': rng.exponential(size=(n, d))}[kind]
    X = Z @ np.linalg.inv(np.eye(d) - W)
    lam = float(rng.choice([0, .001, .05]))
    gama = float(rng.choice([0, 0, .5]))
    thr = float(rng.choice([.3, .3, .3, 0., 1e-5, 3e-4]))
    lam2 = float(rng.choice([0, 0, .008, .3]))
    anneal = bool(rng.random() < .25)
    gama = .5 if anneal else gama
    keep = X.copy()
    what = f'{"annealed " * anneal}{kind} d={d} lambda={lam} gama={gama} thr={thr} lambda2={lam2}'
    model = E.linear_nonGauss(dims=d, bias=False)
    West = E.train_LBFGSB(model, X, lambda1=lam, lambda2=lam2, beta=1., gama=gama, max_iter=2000, w_threshold=thr, **(dict(anneal=True) if anneal else {}))
    ctx.case(what, X[0].tolist())
    ctx.event('estimates')
    ctx.check(np.array_equal(X, keep), 'argument-changed', f'{what}: data')
    if not judge_estimate(ctx, West, d, thr, what):
        return
    W0 = model.weight_test()
    ctx.check(np.array_equal(West, np.where(np.abs(W0) < thr, 0, W0)), 'threshold', f'{what}: {West.tolist()} from {W0.tolist()}')
    for w, b in [(npy(p), p.bounds) for p in (model.linear_pos.weight, model.linear_neg.weight)]:
        ctx.check((w >= -1e-12).all(), 'bounds-violated', f'{what}: {w.tolist()}')

    def obj(Wm, q, beta=1.):     # the l2 penalty is that of the fitted values, or of the weights
        r = X - X @ Wm
        l2 = ((X @ Wm) ** 2).sum() / n if q else (Wm ** 2).sum()
        return beta * ref_mentappr(r) + gama * .5 * (r ** 2).sum() / n + lam * np.abs(Wm).sum() + .5 * lam2 * l2

    # annealing lowers the weight of the entropy in steps of .1, and stops at the step that was reached
    ways = [(q, b) for q in (0, 1) for b in (np.arange(0, 1.05, .1) if anneal else [1.])]
    worsts = [0.] * len(ways)
    for i, j in np.argwhere(np.abs(W0) > .15):
        e = np.zeros((d, d))
        e[i, j] = 1e-5
        for k, (q, b) in enumerate(ways):
            worsts[k] = max(worsts[k], abs(obj(W0 + e, q, b) - obj(W0 - e, q, b)) / 2e-5)
        ctx.event('stationary')
    worst = min(worsts)
    ctx.check(worst < .05 * (1 + (gama + lam2) * (X ** 2).mean()), 'not-stationary', f'{what}: gradient {worst} on the support of {W0.round(3).tolist()}')
    if d == 2 and A.any() and kind == 'gauss' and lam < .01 and lam2 < .1 and not anneal:
        ctx.event('recoverable')
        ctx.check(np.array_equal(np.abs(W0) > .3, A != 0), 'not-recovered', f'{what}: {W0.tolist()}, true {W.tolist()}')


@monitor(quick=16, thorough=200, cpu=400, need={'estimates': 12, 'acyclic': 4})
def nonlinear(ctx):
    """nonlinear estimators: acyclic thresholded estimate of the trained model, which predicts effects from causes"""
    import torch
    rng = ctx.rng
    ent = bool(rng.random() < .5)
    N, U = mod('nonlinear_ent' if ent else 'nonlinear'), mod('utils')
    d = int(rng.choice([2, 2, 3]))
    A = S.random_dag(rng, d, .8)
    n = 200
    X = np.zeros((n, d))
    order = []
    while len(order) < d:
        order += [j for j in range(d) if j not in order and all(i in order for i in np.flatnonzero(A[:, j]))]
    for j in order:
        X[:, j] = sum((2 * np.sin(X[:, i]) + X[:, i] for i in np.flatnonzero(A[:, j])), np.zeros(n)) + rng.uniform(-1, 1, n)
    torch.manual_seed(int(rng.integers(1000)))
    kind = str(rng.choice(['mlp', 'sobolev']))
    m = N.NotearsMLP([d, 5, 1], bias=True) if kind == 'mlp' else N.NotearsSobolev(d, 3)
    keep = X.copy()
    what = f'{"entropy" if ent else "squared"} {kind} d={d}'
    thr = float(rng.choice([.3, .3, 0., 1e-5, 3e-4, .1, .6]))
    W = N.notears_nonlinear(m, X, lambda1=.01, lambda2=.001, **({} if thr == .3 else dict(w_threshold=thr)))
    ctx.case(what, X[0].tolist())
    ctx.event('estimates')
    ctx.check(np.array_equal(X, keep), 'argument-changed', f'{what}: data')
    if not judge_estimate(ctx, W, d, thr, what):
        return
    A0 = m.fc1_to_adj()
    ctx.check(np.array_equal(W, np.where(np.abs(A0) < thr, 0, A0)), 'threshold', f'{what}: {W.tolist()} from {A0.tolist()}')
    if not ent and A.any():
        r = X - npy(m(torch.from_numpy(X)))
        worst = min(1 - r[:, j].var() / X[:, j].var() for j in range(d) if (W[:, j] > .5).any()) if (W > .5).any() else 1
        ctx.event('fits')
        ctx.check(worst > .05, 'does-not-fit', f'{what}: explained variance {worst}, {W.tolist()}')


@monitor(quick=12, thorough=100, cpu=400, need={'runs': 10})
def runs(ctx):
    """end-to-end runs report consistent accuracies, repeat under a seed, and do well on easy settings"""
    rng = ctx.rng
    U = mod('utils')
    which = str(rng.choice(['linear', 'linear_ent', 'nonlinear', 'nonlinear_ent', 'pair']))
    s = int(rng.integers(10 ** 6))

    def call():
        U.set_seed(s)
        if which == 'linear':
            return mod('linear').run(n=400, d=3, s0=2, sem_type='gauss', w_ranges=((-1.5, -.8), (.8, 1.5)))
        if which == 'pair':
            return mod('linear').run_pairwise(n=400, weight=1.2)
        if which == 'linear_ent':
            return mod('linear_ent').run(n=400, d=3, s0=2, sem_type='gauss', w_ranges=((-1.5, -.8), (.8, 1.5)))
        return mod(which).run(n=100, d=2, s0=1, low=1., high=1.)

    a, b = call(), call()
    ctx.case(which, s)
    ctx.event('runs')
    ctx.check(a == b, 'seed', f'{which} seed {s}: {a} then {b}')
    ok = set(a) == {'fdr', 'tpr', 'fpr', 'shd', 'nnz'} and all(np.isfinite(v) and v >= 0 for v in a.values()) and \
        a['fdr'] <= 1 and a['tpr'] <= 1
    ctx.check(ok, 'report', f'{which}: {a}')
    if which == 'pair':
        ctx.check(a['shd'] == 0, 'not-recovered', f'{which} seed {s}: {a}')
