"""Point-process simulators and random graph/transition generators."""
import random as pyrandom

import networkx as nx
import numpy as np
import pandas as pd

from vlib import simtools as S
from vlib.core import monitor

RULE = ('One case = one parameter setting and seed; the generated event table, graph or matrix is judged as a trace: structure '
        'exactly, intensities by the compensator (time-change) of the declared Hawkes model. Distinct = parameters and seed; '
        'non-trivial = at least one edge / a type with a cause.')
ASSUMPTIONS = ['statistical steps alarm below probability 1e-9',
               'Hawkes kernels are alpha * decay * exp(-decay t), as in tick; erdos_renyi keeps each pair with probability 2m/n^2']


def compensator(seqs, j, T, mu, alpha, decay, at):
    """integrated intensity of type j at the times `at`; seqs[i]: event times of type i"""
    out = mu[j] * at
    for i in range(len(seqs)):
        if alpha[i, j] and len(seqs[i]):
            d = at[:, None] - seqs[i][None, :]
            out = out + alpha[i, j] * np.where(d > 0, 1 - np.exp(-decay * np.maximum(d, 0)), 0).sum(axis=1)
    return out


def recency(by, j, T, mu, alpha, decay):
    """sum over events of type j of a fast-fading trace of its causes, minus its integral against the declared intensity,
    and the variance of that difference"""
    k = 4 * decay
    ev = np.sort(np.concatenate(by))
    g, w = np.polynomial.legendre.leggauss(5)
    a, b = np.concatenate([[0.], ev[:-1]]), ev
    at = (a[:, None] + (b - a)[:, None] * (g + 1) / 2).ravel()
    wt = ((b - a)[:, None] * w / 2).ravel()

    def trace(t, rate):
        out = np.zeros(len(t))
        for i in range(len(by)):
            if alpha[i, j]:
                d = t[:, None] - by[i][None, :]
                out += alpha[i, j] * np.where(d > 1e-12, np.exp(-rate * np.maximum(d, 0)), 0).sum(axis=1)
        return out
    lam = mu[j] + decay * trace(at, decay)
    h = trace(at, k)
    return trace(by[j], k).sum() - (wt * lam * h).sum(), (wt * lam * h * h).sum()


@monitor(quick=40, thorough=800, cpu=60, need={'edges': 60, 'events': 20000, 'z_tests': 80, 'floored': 8})
def hawkes(ctx):
    """event tables: parameters in range, acyclic edges, declared counts, and the intensity of the declared model"""
    from cdmir.datasets.simlulators import HawkesSimulator as H
    rng = ctx.rng
    n = int(rng.integers(1, 7)) if rng.random() < .8 else int(rng.integers(7, 11))
    mu_range = (.05, .1) if rng.random() < .5 else (.5, .9)
    alpha_range = [(.3, .5), (.6, .9), (.1, .2)][int(rng.integers(3))]
    rate = float(rng.choice([0.5, 1.0, 1.5, 3.0]))
    ne = int(rng.choice([2, 5, 12, 36], p=[.3, .3, .3, .1]))
    per = int(rng.choice([80, 250, 500])) if ne < 36 else 60
    if ctx.index % 4 == 1:
        per = 8
    decay = float(rng.choice([.01, .03, .1, .5, 2., 8.]))
    seed = int(rng.integers(0, 10 ** 6))
    call = lambda s, **k: H.get_artificial_data(mu_range, alpha_range, n, sample_size=per * ne, out_degree_rate=rate,
                                               NE_num=ne, decay=decay, seed=s, **k)
    table, E, alpha, mu, events = call(seed)
    what = f'n={n} mu={mu_range} alpha={alpha_range} rate={rate} NE={ne} per={per} decay={decay} seed={seed}'
    ctx.case(what)
    ctx.check(E.shape == (n, n) and np.isin(E, [0, 1]).all() and not np.tril(E).any(), 'edges', f'{what}: {E}')
    ctx.check(int(E.sum()) == min(round(rate * n), n * (n - 1) // 2), 'edge-count', f'{what}: {E.sum()}')
    ctx.event('edges', E.sum())
    ctx.check(((alpha != 0) == (E != 0)).all(), 'alpha-support', what)
    a = alpha[E != 0]
    ctx.check(((a >= alpha_range[0]) & (a <= alpha_range[1])).all(), 'alpha-range', f'{what}: {a}')
    ctx.check(mu.shape == (n,) and ((mu >= mu_range[0]) & (mu <= mu_range[1])).all(), 'mu-range', f'{what}: {mu}')
    ctx.check(list(table.columns) == ['seq_id', 'time_stamp', 'event_type'], 'columns', f'{list(table.columns)}')
    ctx.check(sorted(table.seq_id.unique()) == list(range(ne)), 'sequences', f'{what}: {table.seq_id.unique()}')
    ctx.check(table.event_type.isin(range(n)).all(), 'types', what)
    counts = table.groupby('seq_id').size()
    ctx.check((abs(counts - per) <= 1).all(), 'event-count', f'{what}: {counts.tolist()}')
    ctx.check((table.time_stamp >= 0).all(), 'negative-time', what)
    ctx.event('events', len(table))
    types = sorted(table.event_type.unique())
    ctx.check(len(events) == ne and all(len(e) == len(types) for e in events), 'events-shape', what)
    seqs = {}
    tot, exp_ = np.zeros(n), np.zeros(n)
    rec, rvar = np.zeros(n), np.zeros(n)
    waits = [[] for _ in range(n)]
    for s in range(ne):
        sub = table[table.seq_id == s]
        by = [sub[sub.event_type == i].time_stamp.to_numpy(float) for i in range(n)]
        seqs[s] = by
        for t_, got in zip(types, events[s]):
            ctx.check(np.array_equal(np.asarray(got), by[t_]), 'events-content', f'{what}: sequence {s}, type {t_}')
        T = sub.time_stamp.max()
        for j in range(n):
            ctx.check((np.diff(by[j]) > 0).all(), 'unsorted', f'{what}: sequence {s}, type {j}')
            c = compensator(by, j, T, mu, alpha, decay, np.append(by[j], T))
            tot[j] += len(by[j])
            exp_[j] += c[-1]
            if alpha[:, j].any() and per <= 250:
                dr, vr = recency(by, j, T, mu, alpha, decay)
                rec[j] += dr
                rvar[j] += vr
            waits[j] += list(np.diff(np.concatenate([[0.], c[:-1]])))
    flat = [tuple(np.concatenate(seqs[s]).round(9)) for s in range(ne)]
    ctx.check(len(set(flat)) == ne, 'repeated-sequence', f'{what}: two sequences are identical')
    for j in range(n):
        S.zcheck(ctx, tot[j] - exp_[j], exp_[j], 'intensity', f'{what}: type {j}: {tot[j]} events, compensator {exp_[j]:.1f}')
        if rvar[j] > 0 and tot[j] >= 150:
            z = rec[j] / np.sqrt(rvar[j])
            ctx.event('recencies')
            ctx.check(abs(z) < 8, 'intensity', f'{what}: type {j}: influence of recent causes is {z:.1f} deviations off')
        if len(waits[j]) >= 300 and per >= 250:
            from scipy import stats
            p = stats.kstest(waits[j], 'expon').pvalue
            ctx.event('time_changes')
            ctx.check(p > 1e-12, 'intensity', f'{what}: rescaled waiting times of type {j} are not unit exponential, p={p:.3g}')
    np.random.rand(4)
    again = call(seed)
    ctx.check(again[0].equals(table) and np.array_equal(again[1], E) and np.array_equal(again[2], alpha)
              and np.array_equal(again[3], mu), 'seed', what)
    ctx.check(not call(seed + 1)[0].equals(table), 'seed', what + ' other seed')
    if rng.random() < .5:
        iv = float(rng.choice([.5, 1., 3., 10.]))
        t2, E2, a2, m2, ev2 = call(seed, time_interval=iv)
        ctx.event('floored')
        ctx.check(np.array_equal(E2, E) and np.array_equal(a2, alpha) and np.array_equal(m2, mu), 'interval', what)
        if ctx.check(len(t2) == len(table), 'interval', what):
            ctx.check(np.array_equal(t2.event_type, table.event_type) and np.array_equal(t2.seq_id, table.seq_id), 'interval', what)
            ctx.close(t2.time_stamp, np.floor(table.time_stamp / iv) * iv, 'interval', f'{what}: interval {iv}')
            for s in range(ne):
                for t_, got in zip(types, ev2[s]):
                    ctx.close(got, np.floor(seqs[s][t_] / iv) * iv, 'interval', f'{what}: events, interval {iv}')
    else:
        r = H.generate_data(n, '%g,%g' % mu_range, '%g,%g' % alpha_range, per * ne, rate, ne, decay, seed=seed)
        ctx.check(r[0].equals(table) and np.array_equal(r[1], E), 'generate_data', what)


@monitor(quick=25, thorough=400, cpu=90, need={'rows': 5000})
def insem(ctx):
    """integer-valued model: effect counts are the thinned cause counts plus Poisson noise, instant by instant"""
    from cdmir.datasets.simlulators import HawkesSimulator as H
    rng = ctx.rng
    N = int(rng.choice([300, 800]))
    lx, th, le = float(rng.choice([.5, 1, 3])), float(rng.choice([.1, .5, .9])), float(rng.choice([.3, 1, 2]))
    seed = int(rng.integers(0, 10 ** 6))
    df = H.INSEM_data(N, lx, th, le, seed)
    what = f'N={N} lambda_x={lx} theta={th} lambda_e={le} seed={seed}'
    ctx.case(what)
    ctx.event('rows', len(df))
    ctx.check(list(df.columns) == ['seq_id', 'time_stamp', 'event_type'], 'columns', f'{list(df.columns)}')
    ctx.check((df.seq_id == 0).all() and df.event_type.isin([0, 1]).all(), 'columns', what)
    t = df.time_stamp.to_numpy(float)
    ctx.check((t >= 0).all() and (t < N).all() and (t == np.round(t)).all(), 'time', what)
    X, Y = (np.bincount(t[df.event_type.to_numpy() == k].astype(int), minlength=N) for k in (0, 1))
    S.zcheck(ctx, (X - lx).sum(), N * lx, 'cause-rate', what)
    S.zcheck(ctx, ((X - lx) ** 2 - lx).sum(), N * (2 * lx ** 2 + lx), 'cause-rate', what + ' dispersion', 9)
    m, v = th * X + le, th * (1 - th) * X + le
    S.zcheck(ctx, (Y - m).sum(), v.sum(), 'effect-rate', what)
    S.zcheck(ctx, ((Y - m) * (X - lx)).sum(), (v * (X - lx) ** 2).sum(), 'effect-rate', what + ' slope')
    S.zcheck(ctx, ((Y - m) ** 2 - v).sum(), (2 * v ** 2 + v).sum(), 'effect-rate', what + ' dispersion', 9)
    ctx.check(H.INSEM_data(N, lx, th, le, seed).reset_index(drop=True).equals(df.reset_index(drop=True)), 'seed', what)


@monitor(quick=120, thorough=1000, cpu=90, need={'graphs': 3000, 'weighted': 300, 'law_tests': 12})
def erdos_renyi(ctx):
    """random DAGs: acyclic, declared density, every order of the variables, weights in both signs of the range"""
    from cdmir.datasets.utils import erdos_renyi as er
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    m = int(rng.integers(0, n * n // 2 + 1))
    p = min(1., 2 * m / n ** 2)
    wr = None if rng.random() < .5 else [(.5, 2.), [1, 3], (.1, .2)][int(rng.integers(3))]
    s0 = int(rng.integers(10 ** 7))
    K = 120
    tot, F, ws = 0, np.zeros((n, n)), []
    for s in range(s0, s0 + K):
        W = er(n, m, wr, seed=s)
        ctx.event('graphs')
        if not ctx.check(isinstance(W, np.ndarray) and W.shape == (n, n), 'shape', f'{np.shape(W)}'):
            return
        ctx.check(nx.is_directed_acyclic_graph(nx.DiGraph([(a, b) for a in range(n) for b in range(n) if W[a, b]])),
                  'cycle', f'n={n} m={m} range={wr} seed={s}: {W.tolist()}')
        F += W != 0
        tot += int((W != 0).sum())
        if wr is None:
            ctx.check(np.isin(W, [0, 1]).all(), 'unweighted', f'{W}')
        else:
            w = W[W != 0]
            ws += list(w)
            ctx.event('weighted')
            ctx.check(((abs(w) >= wr[0]) & (abs(w) <= wr[1])).all(), 'weight-range', f'{wr}: {w}')
    what = f'n={n} m={m} range={wr} seeds {s0}..{s0 + K - 1}'
    ctx.case(what)
    pairs = n * (n - 1) / 2
    S.zcheck(ctx, tot - K * pairs * p, K * pairs * p * (1 - p), 'edge-count',
             f'{what}: {tot / K:.2f} edges on average, expected {pairs * p:.2f}')
    for a in range(n):
        for b in range(n):
            if a != b:
                S.zcheck(ctx, F[a, b] - K * p / 2, K * p / 2 * (1 - p / 2), 'orientation',
                         f'{what}: {a} -> {b} in {F[a, b]} of {K}')
    if wr is not None and len(ws) > 60:
        ws = np.array(ws)
        S.zcheck(ctx, (np.sign(ws)).sum(), len(ws), 'sign', f'{what}: {np.mean(ws > 0):.3f} positive')
        S.check_law(ctx, (abs(ws) - wr[0]) / (wr[1] - wr[0]) * 2 - 1, 'uniform', 1., 'weight-law', what)
    if n > 2 and 0 < m:
        s = s0 + 7
        a = [er(n, m, wr, seed=s).tolist()]
        np.random.rand(3)
        pyrandom.random()
        ctx.check(er(n, m, wr, seed=s).tolist() == a[0], 'seed', what)
        if 4 <= n and n <= m <= n * n // 3:
            ctx.check(len({str(er(n, m, wr, seed=q).tolist()) for q in range(s, s + 10)}) > 3, 'seed', what + ': seeds ignored')
    W = er(n, m, wr)
    ctx.check(W.shape == (n, n), 'no-seed', what)
    ctx.raises(lambda: er(0, 1), 'zero-nodes', what, AssertionError)


@monitor(quick=24, thorough=300, cpu=90, need={'matrices': 40})
def transitions(ctx):
    """lag transition matrices: unit columns, both signs, conditioning below the accepted percentile"""
    from cdmir.datasets.utils import generate_lag_transitions as glt
    rng = ctx.rng
    n, L = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    acc = int(rng.choice([25, 50, 75]))
    seed = int(rng.integers(10 ** 7))
    kw = {} if rng.random() < .3 else dict(accept_per=acc, niter4cond_thresh=1500)
    per = kw.get('accept_per', 25)
    B = glt(n, L, seed=seed, **kw)
    what = f'n={n} L={L} {kw} seed={seed}'
    ctx.case(what)
    if not ctx.check(isinstance(B, np.ndarray) and B.shape == (L, n, n), 'shape', f'{np.shape(B)}: {what}'):
        return
    ctx.close(np.linalg.norm(B, axis=1), np.ones((L, n)), 'unit-columns', what)
    ref = rng.uniform(1, 2, (3000, n, n))
    ref /= np.linalg.norm(ref, axis=1, keepdims=True)
    conds = np.linalg.cond(ref)
    lim = np.percentile(conds, min(99, per + 6)) * 1.02
    for l in range(L):
        ctx.event('matrices')
        ctx.check(np.linalg.cond(B[l]) <= lim, 'conditioning', f'{what}: cond {np.linalg.cond(B[l]):.2f} > {lim:.2f}')
    ctx.check(len({B[l].tobytes() for l in range(L)}) == L or n == 1, 'repeated', what)
    if n * n * L >= 40:
        ctx.check((B > 0).any() and (B < 0).any(), 'signs', what)
    np.random.rand(3)
    ctx.check(np.array_equal(glt(n, L, seed=seed, **kw), B), 'seed', what)
    if n > 1:
        ctx.check(not np.array_equal(glt(n, L, seed=seed + 1, **kw), B), 'seed', what + ' other seed')
    if rng.random() < .2:
        ctx.check(glt(n, L).shape == (L, n, n), 'no-seed', what)


@monitor(quick=100, thorough=2000, cpu=30, need={'assertions': 400})
def converters(ctx):
    """small data helpers: leaky rectifier, container conversions"""
    from cdmir.datasets import utils as U
    rng = ctx.rng
    shape = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
    x = rng.normal(size=shape) * 3 if rng.random() < .5 else rng.integers(-5, 6, shape)
    s = float(rng.choice([.01, .2, .5, 1.]))
    keep = x.copy()
    ctx.close(U.leaky_relu(x, s), np.where(x > 0, x, s * x), 'leaky-relu', f'{x.tolist()} slope {s}')
    ctx.check(np.array_equal(x, keep), 'argument-changed', '')
    ctx.case(x.tolist(), s)
    ctx.raises(lambda: U.leaky_relu(x, 0), 'leaky-relu', 'slope 0', AssertionError)
    n = int(rng.integers(1, 6))
    M = np.round(rng.normal(size=(n, n)) * (rng.random((n, n)) < .5), 3)
    g = U.np2nx(M, create_using=nx.DiGraph)
    ctx.check(set(g.edges) == {(a, b) for a in range(n) for b in range(n) if M[a, b]}, 'np2nx', f'{M.tolist()}')
    ctx.close(U.nx2np(g), M, 'nx2np', '')
    df = pd.DataFrame(M, columns=[f'v{i}' for i in range(n)])
    ctx.close(U.check_data(df), M, 'check_data', '')
    ctx.close(U.check_data(M), M, 'check_data', '')
    ctx.close(U.pd2np(df), M, 'pd2np', '')
    ctx.raises(lambda: U.check_data(M.tolist()), 'check_data', 'list accepted', AssertionError)
