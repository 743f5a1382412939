"""Matrix exponential: value, batching and gradient against independent references."""
import numpy as np
import scipy.linalg as sl
import torch

from vlib.core import Skip, monitor

QUICK = 3      # times the quick cases of each monitor
RULE = ('One case = one matrix (or batch) across sizes, scales 1e-9..20, structures (dense, nilpotent, symmetric, stochastic, '
        'zero) and precisions. Distinct = matrix; non-trivial = a non-zero matrix of size at least 2.')
ASSUMPTIONS = ['norms small enough that the exponential is representable (single precision Pade: 1-norm at most 20)']


def gen(rng, n, top=1.3):
    k = int(rng.integers(8))
    A = rng.normal(size=(n, n))
    if k == 0:
        A = np.triu(A, 1)
        p = rng.permutation(n)
        A = A[np.ix_(p, p)]
    elif k == 1:
        A = A + A.T
    elif k == 2:
        A = A - A.T
    elif k == 3:
        A = abs(A) * (rng.random((n, n)) < .5)
    elif k == 4:
        A = np.diag(rng.normal(size=n))
    elif k == 5 and rng.random() < .3:
        return np.zeros((n, n))
    return A / max(np.abs(A).sum(axis=0).max(), 1e-300) * 10 ** rng.uniform(-9, top)


def funcs():
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_pade as P, expm_taylor as T
    from cdmir.discovery.score_based.entropy_based.pytorch_expm.expm32 import expm32
    from cdmir.discovery.score_based.entropy_based.pytorch_expm.expm64 import expm64
    return {'taylor64': (T.expm, torch.float64), 'taylor_raw64': (T.expm_taylor, torch.float64),
            'taylor32': (T.expm, torch.float32), 'pade64': (P.expm, torch.float64), 'pade32': (P.expm, torch.float32),
            'expm64': (expm64, torch.float64), 'expm32': (expm32, torch.float32)}


def tol(dt):
    return 1e-12 if dt == torch.float64 else 3e-5


@monitor(quick=600, thorough=12000, cpu=60, need={'values': 2000})
def value(ctx):
    """every implementation returns the matrix exponential, leaves its argument alone, and repeats itself"""
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    A = gen(rng, n)
    E, C = sl.expm(A), np.abs(sl.expm(np.abs(A))).max()
    if not np.isfinite(C) or C > 1e25:
        raise Skip()
    ctx.case(A.round(12).tolist())
    for nm, (f, dt) in funcs().items():
        if dt == torch.float32 and C > 1e10:
            continue
        t = torch.tensor(A, dtype=dt)
        keep = t.clone()
        X = f(t)
        ctx.event('values')
        what = f'{nm} of {A.tolist()}'
        ctx.check(torch.equal(t, keep), 'argument-changed', what)
        ctx.check(X.shape == t.shape and X.dtype == dt, 'shape', what)
        ctx.check(np.abs(X.numpy() - E).max() <= tol(dt) * C, 'value', lambda: f'{what}: error {np.abs(X.numpy() - E).max()}')
        ctx.check(torch.equal(f(t), X), 'not-repeatable', what)


@monitor(quick=600, thorough=12000, cpu=60, need={'concentrated': 2000})
def concentrated(ctx):
    """one entry holds the whole norm, at every size of it: here the choice of degree and scaling decides the precision, and
    the exponential comes to a few units in the last place of its largest entry"""
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_taylor as T
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    k = int(rng.integers(4))
    x = 10 ** rng.uniform(-4, 1.3)
    A = rng.normal(size=(n, n)) * 1e-3 * min(x, 1) if k % 2 else np.zeros((n, n))
    i = int(rng.integers(n))
    A[i, i] = x * rng.choice([-1, 1])
    E, C = sl.expm(A), np.abs(sl.expm(np.abs(A))).max()
    ctx.case(A.round(12).tolist())
    for nm, (f, dt) in list(funcs().items()) + [('batch', (T.expm_taylor, torch.float64)), ('batch', (T.expm_taylor, torch.float32))]:
        t = torch.tensor(A, dtype=dt)
        if nm == 'batch':
            t = torch.stack([t, t * 1e-3, t])
        X = f(t)
        X = X[2] if nm == 'batch' else X
        ctx.event('concentrated')
        e = np.abs(X.numpy() - E).max() / C
        ctx.check(e <= (2e-14 if dt == torch.float64 else 1.5e-6) * max(1., x), 'precision',
                  lambda: f'{nm} {dt} of {A.tolist()}: relative error {e}')


@monitor(quick=200, thorough=4000, cpu=60, need={'batched': 400})
def batches(ctx):
    """the batched Taylor exponential equals the exponential of every member, whatever their scales and batch shape"""
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_taylor as T
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    shape = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(1, 4))))
    m = int(np.prod(shape))
    top = rng.choice([-1., .5, 1.3])
    A = np.array([gen(rng, n, top) for _ in range(m)]).reshape(shape + (n, n))
    dt = torch.float64 if rng.random() < .7 else torch.float32
    t = torch.tensor(A, dtype=dt)
    keep = t.clone()
    X = T.expm_taylor(t)
    what = f'batch {shape} of {n}x{n}, {dt}'
    ctx.case(A.round(10).tolist())
    ctx.check(torch.equal(t, keep), 'argument-changed', what)
    if not ctx.check(X.shape == t.shape, 'shape', what):
        return
    for i in np.ndindex(shape):
        E, C = sl.expm(A[i]), np.abs(sl.expm(np.abs(A[i]))).max()
        if C > 1e10:
            continue
        ctx.event('batched')
        ctx.check(np.abs(X[i].numpy() - E).max() <= tol(dt) * 4 * C, 'batched-value',
                  lambda: f'{what}: member {i} = {A[i].tolist()}: error {np.abs(X[i].numpy() - E).max()}')


@monitor(quick=200, thorough=4000, cpu=60, need={'gradients': 300, 'gradients32': 100})
def gradient(ctx):
    """back-propagated gradients equal the Frechet derivative"""
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_pade as P, expm_taylor as T
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    A = gen(rng, n, .7)
    G = rng.normal(size=(n, n))
    want = sl.expm_frechet(A.T, G, compute_expm=False)
    C = np.abs(sl.expm(np.abs(A))).max() * max(1., np.abs(A).sum()) * n * 5
    ctx.case(A.round(12).tolist())
    for nm, f in (('taylor', T.expm), ('pade', P.expm)):
        t = torch.tensor(A, dtype=torch.float64, requires_grad=True)
        (f(t) * torch.tensor(G)).sum().backward()
        ctx.event('gradients')
        ctx.check(np.abs(t.grad.numpy() - want).max() <= 1e-11 * C, 'gradient',
                  lambda: f'{nm} at {A.tolist()}: error {np.abs(t.grad.numpy() - want).max()}')
        C32 = np.abs(sl.expm(np.abs(A))).max() ** 2 * n * max(1., np.abs(G).max())
        if C32 < 1e5:
            t = torch.tensor(A, dtype=torch.float32, requires_grad=True)
            (f(t) * torch.tensor(G, dtype=torch.float32)).sum().backward()
            ctx.event('gradients32')
            ctx.check(t.grad.dtype == torch.float32 and np.abs(t.grad.numpy() - want).max() <= 3e-5 * C32, 'gradient32',
                      lambda: f'{nm}32 at {A.tolist()}: error {np.abs(t.grad.numpy() - want).max()} of {C32}')
    # trace(expm) - d, the acyclicity function, through a batch
    B = np.array([gen(rng, n, .5) for _ in range(3)])
    t = torch.tensor(B, dtype=torch.float64, requires_grad=True)
    T.expm(t).diagonal(dim1=-2, dim2=-1).sum().backward()
    for k in range(3):
        ctx.event('gradients')
        ctx.check(np.abs(t.grad[k].numpy() - sl.expm(B[k]).T).max() <= 1e-10 * np.abs(sl.expm(abs(B[k]))).max(), 'gradient',
                  f'batched trace of {B[k].tolist()}')


@monitor(quick=20, thorough=100, cpu=20, need={'rejections_expected': 20})
def refused(ctx):
    """non-square input is refused"""
    rng = ctx.rng
    a, b = (int(v) for v in rng.choice(range(1, 6), 2, replace=False))
    ctx.case(a, b)
    for nm, (f, dt) in funcs().items():
        ctx.raises(lambda: f(torch.ones(a, b, dtype=dt)), 'non-square', nm)
    ctx.raises(lambda: funcs()['taylor_raw64'][0](torch.ones(3, dtype=torch.float64)), 'non-square', 'vector', ValueError)


@monitor(quick=400, thorough=6000, cpu=30, need={'values': 1500})
def weighted_dags(ctx):
    """nilpotent matrices, the weighted adjacency matrices of DAGs, in every variable order and up to large weights"""
    rng = ctx.rng
    n = int(rng.integers(2, 10))
    A = np.triu(rng.normal(size=(n, n)) * (rng.random((n, n)) < rng.uniform(.2, 1)), 1)
    A *= 10 ** rng.uniform(-3, 1) / max(1e-9, np.abs(A).sum(axis=0).max())
    p = rng.permutation(n)
    A = A[np.ix_(p, p)]
    ctx.case(A.round(9).tolist())
    E, term = np.eye(n), np.eye(n)
    C = np.eye(n)
    absterm = np.eye(n)
    for k in range(1, n):
        term, absterm = term @ A / k, absterm @ abs(A) / k
        E, C = E + term, C + absterm
    for nm, (f, dt) in funcs().items():
        if dt == torch.float32 and C.max() > 1e6:
            continue
        X = f(torch.tensor(A, dtype=dt)).numpy()
        ctx.event('values')
        ctx.check(np.abs(X - E).max() <= 10 * tol(dt) * C.max(), 'nilpotent-value', lambda: f'{nm} of {A.tolist()}')
