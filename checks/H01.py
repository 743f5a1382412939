"""Structural Hawkes process: likelihood, EM estimates and hill climbing against an independent model of the event table."""
import itertools

import numpy as np
import pandas as pd
from scipy import optimize

from vlib import simtools as S
from vlib.core import monitor

RULE = ('One case = one simulated or random event table (1-6 sequences, 2-4 event types, continuous, binned or tied times) and '
        'the structures scored on it. Distinct = the table and settings; non-trivial = at least two event types and 30 events.')
ASSUMPTIONS = ['influence below 1e-4 of the kernel is cut off, as declared', 'the EM stopping rule (gain below 0.0085) bounds '
               'how far estimates may stay from the maximum']
CUT = 1e-4


def mod():
    import importlib
    return importlib.import_module('cdmir.discovery.point_process.SHP')


def hawkes(rng, A, mu, decay, T):
    """events (type, time) of a branching process: A[j, i] = mean number of i-events caused by one j-event"""
    n = len(mu)
    out, todo = [], []
    for i in range(n):
        todo += [(i, t) for t in rng.uniform(0, T, rng.poisson(mu[i] * T))]
    while todo:
        j, t = todo.pop()
        out.append((j, t))
        for i in range(n):
            for d in rng.exponential(1 / decay, rng.poisson(A[j, i])):
                if t + d < T:
                    todo.append((i, t + d))
    return out


def table(rng, n, decay, seqs, per_seq, A=None):
    if A is None:
        A = S.random_dag(rng, n, .5) * rng.uniform(.4, .8, (n, n))
    rows = []
    mu = rng.uniform(.02, .05, n) * min(decay, 1.)
    T = per_seq / mu.sum() / 1.5
    for s in range(seqs):
        rows += [(s, t, i) for i, t in hawkes(rng, A, mu, decay, T)]
    return pd.DataFrame(rows, columns=['seq_id', 'time_stamp', 'event_type']), A


class Model:
    """counts, kernel sums and log-likelihood straight from the table"""

    def __init__(self, ev, decay, dt):
        t = ev.iloc[:, 1].to_numpy(float)
        if dt is not None:
            t = (t / dt).astype(int) * dt
        seq, typ = ev.iloc[:, 0].to_numpy(), ev.iloc[:, 2].to_numpy()
        self.names = sorted(set(typ))
        n = len(self.names)
        K, X, I, self.T = [], [], np.zeros(n), 0.
        for s in sorted(set(seq)):
            m = seq == s
            ts = t[m] - t[m].min()
            u = np.unique(ts)
            C = np.zeros((len(u), n))
            for v, y in zip(ts, typ[m]):
                C[np.searchsorted(u, v), self.names.index(y)] += 1
            D = u[:, None] - u[None]
            k = np.where(D >= 0, np.exp(-decay * np.maximum(D, 0)), 0)
            k[k < CUT] = 0
            K.append(k @ C)
            X.append(C)
            I += C.T @ ((1 - np.exp(-decay * (u.max() - u))) / decay)
            self.T += u.max()
        self.K, self.X, self.I, self.n = np.concatenate(K), np.concatenate(X), I, n

    def loglik(self, i, a, mu):
        lam = self.K @ a + mu
        x = self.X[:, i]
        with np.errstate(all='ignore'):
            return float(np.sum(np.where(x > 0, x * np.log(lam), 0)) - a @ self.I - mu * self.T)

    def total(self, alpha, mu):
        return sum(self.loglik(i, alpha[:, i], mu[i]) for i in range(self.n))

    def em_gain(self, i, a, mu):
        """what one more expectation-maximisation step over alpha and mu together adds to the log-likelihood"""
        w = self.X[:, i] / (self.K @ a + mu)
        with np.errstate(all='ignore'):
            b = np.where(self.I > 0, a * (self.K.T @ w) / self.I, 0)
        return self.loglik(i, b, mu * w.sum() / self.T) - self.loglik(i, a, mu)

    def best(self, i, pa):
        """maximum of the concave log-likelihood over alpha >= 0, mu > 0"""
        pa = list(pa)
        Z = np.column_stack([self.K[:, pa], np.ones(len(self.K))])
        c = np.append(self.I[pa], self.T)
        x = self.X[:, i]

        def f(p):
            lam = np.maximum(Z @ p, 1e-300)
            return -(x @ np.log(lam) - c @ p), -(Z.T @ (x / lam) - c)

        b = x.sum() / self.T
        r = optimize.minimize(f, np.append(np.full(len(pa), .3), b / 2), jac=True, method='L-BFGS-B',
                              bounds=[(0, None)] * len(pa) + [(1e-12, None)], options=dict(maxiter=3000, ftol=1e-14))
        return -r.fun, r.x

    def penalty(self, edges, kind, reg):
        k = self.n + edges
        return k * reg * (np.log(self.X.sum()) if kind == 'BIC' else 1.)


def acyclic(E):
    R = (E != 0) & ~np.eye(len(E), dtype=bool)
    P = R.astype(float)
    for _ in range(len(E)):
        P = P @ R
    return not P.any()


def settings(rng):
    decay = float(rng.choice([.2, 1, 3]))
    dt = [None, .5 / decay, 1, 2][int(rng.integers(4))]
    return decay, dt, rng.choice(['BIC', 'AIC']), float(rng.choice([.5, .85, 1, 3]))


@monitor(200, 3000, cpu=200, need=dict(scores=100))
def score(ctx):
    """EM on given structures: value of the declared penalised likelihood at the reported parameters, near its maximum,
    the same from both entry points, in any order of calls, and for permuted, renamed or shifted tables"""
    M, rng = mod(), ctx.rng
    decay, dt, pen, reg = settings(rng)
    n = int(rng.integers(2, 5))
    big = ctx.index % 12 == 7
    ev, A = table(rng, n, decay, int(rng.integers(1, 5)), int(rng.integers(1500, 4000) if big else rng.integers(15, 50)))
    if ev['event_type'].nunique() < 2 or len(ev) < 30:
        return ctx.event('too_small')
    ctx.event('long_tables', int(big))
    if rng.random() < .3:
        ev['time_stamp'] = np.round(ev['time_stamp'] * 4) / 4
    if rng.random() < .3:
        ev = ev.sample(frac=1, random_state=int(rng.integers(1000)))
    ev0 = ev.copy()
    tag = f'n={n} events={len(ev)} decay={decay} dt={dt} {pen} reg={reg}'
    ctx.case(ctx.case_seed)
    R = Model(ev, decay, dt)
    n = R.n
    kw = dict(decay=decay, time_interval=dt, penalty=str(pen), reg=reg)
    s = M.SHP(ev, seed=1, **kw)
    ctx.check(list(s.event_names) == R.names, 'table/types', f'{tag}: {list(s.event_names)}')
    got = {}
    for k in range(4):
        E = S.random_dag(rng, n, [0., .4, .7, 1.][k]).astype(int)
        if rng.random() < .3:
            E = E + np.diag(rng.random(n) < .5).astype(int)
        E0 = E.copy()
        fn = s.EM if k % 2 else s.EM_not_HC
        L, al, mu = fn(E)
        al, mu = np.array(al, float), np.array(mu, float)
        ctx.event('scores')
        ctx.check(np.array_equal(E, E0), 'score/structure-changed', tag)
        ctx.check(al.shape == (n, n) and mu.shape == (n,) and np.all(al >= 0) and np.all(mu > 0) and not al[E == 0].any(),
                  'score/parameters', lambda: f'{tag}\n{E}\n{al}\n{mu}')
        want = R.total(al, mu) - R.penalty(E.sum(), pen, reg)
        if not ctx.close(L, want, 'score/value', lambda: f'{tag}\n{E}\n{al}\n{mu}', rtol=1e-8, atol=1e-6):
            return
        gaps = []
        for i in range(n):
            b, p = R.best(i, np.flatnonzero(E[:, i]))
            gaps.append(b - R.loglik(i, al[:, i], mu[i]))
        steps = [R.em_gain(i, al[:, i], mu[i]) for i in range(n)]
        ctx.check(max(steps) < .06, 'score/stopped-early', lambda: f'{tag}\n{E}: one more step gains {steps}')
        ctx.check(min(gaps) > -1e-3, 'score/above-maximum', f'{tag}: {gaps}')
        ctx.event('gap_tenths', int(10 * max(gaps)))
        ctx.check(max(gaps) < 2, 'score/below-maximum', lambda: f'{tag}\n{E}\n{al}\n{mu}: gaps {gaps}')
        # repeated, by the other entry point, and on a fresh object
        L2, al2, mu2 = fn(E.copy())
        ctx.close(L2, L, 'score/repeat', tag)
        ctx.close(al2, al, 'score/repeat', tag)
        ctx.close(mu2, mu, 'score/repeat', tag)
        L3, al3, mu3 = (s.EM_not_HC if k % 2 else s.EM)(E)
        ctx.close(L3, R.total(np.array(al3), np.array(mu3)) - R.penalty(E.sum(), pen, reg), 'score/entry-points', tag,
                  rtol=1e-8, atol=1e-6)
        got[k] = (E, L)
    # a table in other words: shuffled rows, other names in the same order, other sequence labels, shifted sequences
    step = dt or 1.
    ev2 = ev.sample(frac=1, random_state=3)
    ev2.columns = ['who', 'when', 'what']
    base = {v: rng.integers(0, 50) * step for v in ev2['who'].unique()}
    ev2['when'] = ev2['when'] + ev2['who'].map(base).astype(float)
    names = ev2['what'].map(lambda v: f'type{v}')
    ev2['what'] = names
    lab = {v: f's{q}' for v, q in zip(sorted(base), rng.permutation(len(base)))}
    ev2['who'] = ev2['who'].map(lab)
    R2 = Model(ev2, decay, dt)
    s2 = M.SHP(ev2, seed=1, **kw)
    E, L = got[2]
    L2, al2, mu2 = s2.EM(E * (1 - np.eye(n, dtype=int)))
    ctx.event('relabelled')
    ctx.close(L2, R2.total(np.array(al2), np.array(mu2)) - R2.penalty((E * (1 - np.eye(n))).sum(), pen, reg),
              'relabel/value', tag, rtol=1e-8, atol=1e-6)
    if dt is None:
        ctx.close(R2.total(np.array(al2), np.array(mu2)), R.total(np.array(al2), np.array(mu2)), 'relabel/shift', tag,
                  rtol=1e-5, atol=1e-3)
    ctx.check(ev.equals(ev0), 'table/argument-changed', tag)
    # directed cycles are refused by the search score
    C = np.zeros((n, n), int)
    C[0, 1] = C[1, 0] = 1
    Lc, ac, mc = s.EM(C)
    ctx.check(Lc == -np.inf and not np.any(ac), 'score/cycle', f'{tag}: {Lc}')


@monitor(120, 2000, cpu=120, need=dict(scores=80, short=60))
def short_sequences(ctx):
    """many sequences shorter than the reach of the kernel (down to one event): each is its own history, in any order
    of the sequences in the table"""
    M, rng = mod(), ctx.rng
    decay, dt, pen, reg = settings(rng)
    n = int(rng.integers(2, 4))
    rows = []
    for s in range(int(rng.integers(3, 10))):
        span = rng.uniform(.2, 8) / decay
        k = int(rng.choice([1, 2, 5, 12]))
        ts = np.sort(rng.uniform(0, span, k))
        if rng.random() < .5:
            ts[0] = 0
        if rng.random() < .3:
            ts += rng.integers(0, 40)
        rows += [(s, float(v), int(rng.integers(n))) for v in ts]
    ev = pd.DataFrame(rows, columns=['seq_id', 'time_stamp', 'event_type'])
    R = Model(ev, decay, dt)
    if R.n < 2 or R.T <= 0:
        return ctx.event('too_small')
    n = R.n
    tag = f'{len(ev)} events in {ev.seq_id.nunique()} sequences decay={decay} dt={dt} {pen} reg={reg}'
    ctx.case(ctx.case_seed)
    ctx.event('short')
    names = {v: f's{q}' for v, q in zip(ev.seq_id.unique(), rng.permutation(ev.seq_id.nunique()))}
    ev2 = ev.assign(seq_id=ev.seq_id.map(names))
    E = S.random_dag(rng, n, .9).astype(int)
    for T in (ev, ev2, ev2.sample(frac=1, random_state=1)):
        s = M.SHP(T, decay=decay, time_interval=dt, penalty=str(pen), reg=reg, seed=1)
        L, al, mu = (s.EM if rng.random() < .5 else s.EM_not_HC)(E)
        al, mu = np.array(al, float), np.array(mu, float)
        ctx.event('scores')
        if not ctx.close(L, R.total(al, mu) - R.penalty(E.sum(), pen, reg), 'short/value', lambda: f'{tag}\n{ev}\n{E}\n{al}\n{mu}',
                         rtol=1e-8, atol=1e-6):
            return


@monitor(60, 800, cpu=120, need=dict(scores=80, crowded=20, tiny=10, cyclic=30))
def counts(ctx):
    """crowded bins (tens of events of a type at one instant), kernels that decay at once, and up to seven types: value
    for acyclic structures, refusal of every cyclic one however long the cycle"""
    M, rng = mod(), ctx.rng
    n = int(rng.integers(2, 8))
    kind = ctx.index % 3
    decay = float([rng.choice([.1, .3, 1]), rng.choice([15, 60, 200]), rng.choice([.2, 1, 3])][kind])
    pen, reg = str(rng.choice(['BIC', 'AIC'])), float(rng.choice([.5, 1, 3]))
    rows = []
    for s in range(int(rng.integers(1, 4))):
        for t in np.arange(rng.integers(8, 25)) + rng.integers(0, 9):
            for i in range(n):
                m = [rng.poisson(rng.choice([.3, 4, 25])), rng.poisson(.4), rng.poisson(1.5)][kind]
                rows += [(s, float(t) + (.5 if kind == 2 and rng.random() < .5 else 0), i)] * int(m)
    ev = pd.DataFrame(rows, columns=['seq_id', 'time_stamp', 'event_type'])
    dt = [None, 1][int(rng.integers(2))]
    if ev['event_type'].nunique() < 2:
        return ctx.event('too_small')
    R = Model(ev, decay, dt)
    n = R.n
    ctx.case(ctx.case_seed)
    tag = f'n={n} events={len(ev)} most at once {int(R.X.max())} decay={decay} dt={dt} {pen} reg={reg} integral {R.I.round(3)}'
    if R.X.max() > 9:
        ctx.event('crowded')
    if R.I.min() < 1:
        ctx.event('tiny')
    s = M.SHP(ev, decay=decay, time_interval=dt, penalty=pen, reg=reg, seed=int(rng.integers(9)))
    for q in range(4):
        E = S.random_dag(rng, n, [.3, .6, 1, .5][q]).astype(int)
        if q == 3:
            E = np.maximum(E, np.diag(rng.random(n) < .5).astype(int))
        L, al, mu = (s.EM if rng.random() < .6 else s.EM_not_HC)(E)
        al, mu = np.array(al, float), np.array(mu, float)
        ctx.event('scores')
        if not ctx.close(L, R.total(al, mu) - R.penalty(E.sum(), pen, reg), 'counts/value', lambda: f'{tag}\n{E}\n{al}\n{mu}',
                         rtol=1e-8, atol=1e-6):
            return
        # a cycle of any length through this structure
        k = int(rng.integers(2, n + 1))
        c = rng.permutation(n)[:k]
        F = E.copy()
        F[c, np.roll(c, -1)] = 1
        ctx.event('cyclic')
        L, al, mu = s.EM(F)
        ctx.check(L == -np.inf and not np.any(al), 'counts/cycle', lambda: f'{tag}\n{F}: {L}')
        ctx.check(M.check_DAG(F) is False and M.check_DAG(E) is True, 'counts/check-dag', lambda: f'{F}\n{E}')


@monitor(24, 300, cpu=300, need=dict(started=10))
def prior_structure(ctx):
    """a start with self-excitation on its diagonal: the diagonal is part of the structure from start to end"""
    M, rng = mod(), ctx.rng
    decay, dt, pen, reg = settings(rng)
    n = int(rng.integers(2, 4))
    A = S.random_dag(rng, n, .5) * rng.uniform(.4, .8, (n, n)) + np.diag(rng.uniform(.2, .6, n))
    ev, A = table(rng, n, decay, int(rng.integers(1, 4)), 30, A)
    if ev['event_type'].nunique() < 2 or len(ev) < 30:
        return ctx.event('too_small')
    R = Model(ev, decay, dt)
    n = R.n
    init = S.random_dag(rng, n, .4).astype(int) + np.diag(rng.random(n) < .7).astype(int)
    init[0, 0] = 1
    s = M.SHP(ev, seed=1, decay=decay, time_interval=dt, penalty=str(pen), reg=reg, init_structure=init)
    L, al, mu = s.Hill_Climb()
    al, mu = np.array(al, float), np.array(mu, float)
    ctx.event('started')
    ctx.case(ctx.case_seed)
    D = np.diag(init)
    tag = f'n={n} events={len(ev)} decay={decay} dt={dt} {pen} reg={reg} diagonal {D}'
    ctx.check(not np.diag(al)[D == 0].any(), 'prior/diagonal', lambda: f'{tag}\n{al}')
    k = (R.total(al, mu) - L) / R.penalty(1 - n, pen, reg) - n
    ctx.check(abs(k - round(k)) < 1e-6 and round(k) >= D.sum(), 'prior/value', lambda: f'{tag}: {k} edges\n{al}')
    E = ((al - np.diag(np.diag(al))) > 0).astype(int) + np.diag(D)
    for i in range(n):
        b, p = R.best(i, np.flatnonzero(E[:, i]))
        ctx.check(b - R.loglik(i, al[:, i], mu[i]) < 2, 'prior/below-maximum', lambda: f'{tag}\n{al}')


@monitor(60, 800, cpu=600, need=dict(searches=12))
def search(ctx):
    """hill climbing: acyclic, value of the declared score, no worse than its start, no better single change"""
    M, rng = mod(), ctx.rng
    decay, dt, pen, reg = settings(rng)
    n = int(rng.integers(2, 5))
    ev, A = table(rng, n, decay, int(rng.integers(1, 4)), 40)
    if ev['event_type'].nunique() < 2 or len(ev) < 30:
        return ctx.event('too_small')
    R = Model(ev, decay, dt)
    n = R.n
    init = S.random_dag(rng, n, .5).astype(int) if rng.random() < .5 else None
    i0 = None if init is None else init.copy()
    s = M.SHP(ev, seed=int(rng.integers(99)), decay=decay, time_interval=dt, penalty=str(pen), reg=reg, init_structure=init)
    L, al, mu = s.Hill_Climb()
    al, mu = np.array(al, float), np.array(mu, float)
    ctx.event('searches')
    ctx.case(ctx.case_seed)
    tag = f'n={n} events={len(ev)} decay={decay} dt={dt} {pen} reg={reg}'
    ctx.check(init is None or np.array_equal(init, i0), 'search/start-changed', tag)
    ctx.check(acyclic(al) and np.all(al >= 0), 'search/acyclic', lambda: f'{tag}\n{al}')
    k = (R.total(al, mu) - L) / R.penalty(1 - n, pen, reg) - n
    ctx.check(abs(k - round(k)) < 1e-6 and (al != 0).sum() <= round(k) <= n * (n - 1) // 2, 'search/value',
              lambda: f'{tag}: likelihood {R.total(al, mu)} score {L}: {k} edges for\n{al}')

    def ref(E):
        return sum(R.best(i, np.flatnonzero(E[:, i]))[0] for i in range(n)) - R.penalty(E.sum(), pen, reg)

    tol = 1. * n
    start = np.zeros((n, n), int) if init is None else init
    ctx.check(L >= ref(start) - tol, 'search/below-start', lambda: f'{tag}: {L} < {ref(start)}')
    E = (al > 0).astype(int)
    for a, b in itertools.permutations(range(n), 2):
        for ab, ba in ((0, 0), (1, 0)):
            F = E.copy()
            F[a, b], F[b, a] = ab, ba
            if acyclic(F):
                v = ref(F)
                ctx.event('neighbours')
                ctx.check(v <= L + tol, 'search/missed-change', lambda: f'{tag}: score {L}, {v} after {a}->{b}={ab}\n{E}')


@monitor(16, 160, cpu=900, need=dict(pooled=5))
def recovery(ctx):
    """clear cascades are found with their direction and strength (pools of 4)"""
    M, rng = mod(), ctx.rng
    dt = [None, 1, .5, 2][ctx.index % 4]
    decay = [1., .3][ctx.index // 4 % 2]
    tp = true = fp = 0
    errs = []
    for q in range(4):
        n = 4
        A = S.random_dag(rng, n, .5) * rng.uniform(.6, .9, (n, n))
        ev, _ = table(rng, n, decay, 4, 90, A)
        s = M.SHP(ev, decay=decay, time_interval=dt, reg=1., seed=q)
        if s.n < n:
            continue
        L, al, mu = s.Hill_Climb()
        al = np.array(al)
        tp += int(((al > 0) & (A > 0)).sum())
        fp += int(((al > 0) & (A == 0)).sum())
        true += int((A > 0).sum())
        errs += list((al / decay - A)[(A > 0) & (al > 0)])
        ctx.case(ctx.case_seed, q)
    ctx.event('pooled')
    ctx.event('true_edges', true)
    ctx.event('found', tp)
    ctx.event('false', fp)
    tag = f'decay={decay} dt={dt}: {tp} of {true} found, {fp} false'
    ctx.check(tp >= .75 * true - 2, 'recovery/missed', tag)
    coarse = dt is not None and dt * decay > 1
    ctx.check(fp <= (8 if coarse else 4) + .2 * true, 'recovery/extra', tag)
    if len(errs) >= 6:
        ctx.check(abs(np.median(errs)) < .3, 'recovery/strength', f'{tag}: median error {np.median(errs)}')


@monitor(30, 300, cpu=60, need=dict(tables=20, rejections_expected=30))
def tools(ctx):
    """interval event lists, acyclicity test, single changes, refused arguments"""
    M, rng = mod(), ctx.rng
    ctx.case(ctx.case_seed)
    ev, _ = table(rng, int(rng.integers(2, 5)), 1., int(rng.integers(1, 4)), 20)
    if len(ev) < 5:
        return
    ev['time_stamp'] *= 10
    ev0 = ev.copy()
    w = int(rng.integers(1, 30))
    ctx.event('tables')
    got = M.get_interval_events(ev, w)
    types, seqs = np.sort(ev['event_type'].unique()), ev['seq_id'].unique()
    ctx.check(len(got) == len(seqs) and all(len(g) == len(types) for g in got), 'intervals/shape', '')
    for j, sq in enumerate(seqs):
        for i, ty in enumerate(types):
            t = ev.loc[(ev.seq_id == sq) & (ev.event_type == ty), 'time_stamp'].to_numpy()
            ctx.close(np.sort(got[j][i]), np.sort(np.floor(t / w) * w), 'intervals/values', f'width {w}')
    ctx.check(ev.equals(ev0), 'intervals/argument-changed', '')
    n = int(rng.integers(2, 7))
    E = (rng.random((n, n)) < rng.choice([.15, .3])).astype(int)
    ctx.check(bool(M.check_DAG(E)) == acyclic(E), 'check-dag', lambda: repr(E))
    D = S.random_dag(rng, n, .5) + np.diag(rng.random(n) < .5)
    ctx.check(bool(M.check_DAG(D)), 'check-dag', lambda: repr(D))
    if ev['event_type'].nunique() > 1:
        m = ev['event_type'].nunique()
        ctx.raises(lambda: M.SHP(ev, decay=1, penalty='MDL'), 'refused/penalty')
        ctx.raises(lambda: M.SHP(ev, decay=1, init_structure=2 * np.ones((m, m))), 'refused/structure')
        s = M.SHP(ev, decay=1., time_interval=5)
        E = S.random_dag(rng, m, .5).astype(int)
        E0 = E.copy()
        seen = set()
        for F in s.one_step_change_iterator(E):
            seen.add(np.asarray(F).tobytes())
        want = {E.tobytes()}
        for a, b in itertools.permutations(range(m), 2):
            for ab, ba in ((0, 0), (1, 0)):
                F = E.copy()
                F[a, b], F[b, a] = ab, ba
                want.add(F.tobytes())
        ctx.check(seen == want, 'changes/set', lambda: f'{E}: {len(seen)} of {len(want)}')
        ctx.check(np.array_equal(E, E0), 'changes/argument-changed', '')
