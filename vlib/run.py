"""python -m vlib.run PROPERTY [--tier T] [--replay FILE] [--only MONITOR]

Runs every monitor of checks/<PROPERTY>.py over its workload, in parallel, and turns what the monitors saw into a
verdict: exit 0 held on everything observed, exit 1 violated (VIOLATION line), exit 2 inconclusive or harness error.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.environ.get('CDMIR_SRC')
if src:
    sys.path.insert(0, src)

from vlib import core  # noqa: E402

MAX_PER_MECH = 3
CHUNK_STOP = 12


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


_MOD = None


def work(task):
    prop, name, lo, hi, seed, tier, stop_after = task
    mon = next(m for m in _MOD.MONITORS if m.name == name)
    res = dict(monitor=name, n=0, events=Counter(), cases=[], viol=[], errors=[], skipped=0, maxcpu=0.0)
    bad = 0
    for i in range(lo, hi):
        t = time.process_time()
        ctx, err = core.run_case(prop, mon, i, seed, tier)
        res['maxcpu'] = max(res['maxcpu'], time.process_time() - t)
        res['n'] += 1
        res['events'].update(ctx.events)
        res['skipped'] += ctx.skipped
        res['cases'].extend(ctx.cases)
        if ctx.violations:
            bad += 1
            for mech, msg in ctx.violations[:40]:
                res['viol'].append((mech, i, msg))
        if err:
            res['errors'].append(err)
            if len(res['errors']) > 3:
                break
        if bad >= stop_after or ctx.timeout:
            res['events']['stopped_early'] += 1
            break
    seen = {}
    for d, t in res['cases']:
        seen.setdefault(d, t)
    res['cases'] = list(seen.items())
    return res


def main():
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1))))
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()

    import cdmir
    where = os.path.dirname(os.path.realpath(cdmir.__file__))
    if where + os.sep != core.PKG:
        print(f'HARNESS-ERROR cdmir is imported from {where}, expected {core.PKG}')
        return 2
    _MOD = importlib.import_module(f'checks.{prop}')
    known = known_findings(prop)

    if a.replay:
        r = json.load(open(a.replay))
        mon = next(m for m in _MOD.MONITORS if m.name == r['monitor'])
        ctx, err = core.run_case(prop, mon, r['index'], r['seed'], r['tier'])
        for mech, msg in ctx.violations:
            print(f'[{mech}] {msg}')
        if err:
            print(err)
            return 2
        print('reproduced' if ctx.violations else 'not reproduced')
        return 1 if ctx.violations else 0

    monitors = [m for m in _MOD.MONITORS if not a.only or m.name == a.only]
    tasks = []
    for m in monitors:
        n = m.thorough
        if tier == 'quick':
            n = min(n, m.quick * getattr(_MOD, 'QUICK', 1))
        n = max(1, int(n * a.scale)) if n else 0
        step = max(1, -(-n // (a.jobs * 4)))
        for lo in range(0, n, step):
            tasks.append((prop, m.name, lo, min(n, lo + step), seed, tier, CHUNK_STOP if known else 4))
    # interleave long monitors first
    results, first = [], os.environ.get('VERIF_FIRST')     # VERIF_FIRST: stop at the first violation (mutation runs)
    sys.stdout.flush()
    if a.jobs == 1:
        saved = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        try:
            for t in tasks:
                results.append(work(t))
                if first and any(m not in known for m, _, _ in results[-1]['viol']):
                    break
        finally:
            sys.stdout.flush()
            os.dup2(saved, 1)
    else:
        ctxm = mp.get_context('fork')
        def quiet():
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get('VERIF_STDERR'):
                os.dup2(dn, 2)
        from concurrent.futures import ProcessPoolExecutor
        from concurrent.futures.process import BrokenProcessPool
        try:
            with ProcessPoolExecutor(min(a.jobs, len(tasks)), mp_context=ctxm, initializer=quiet) as ex:
                for r in ex.map(work, tasks):
                    results.append(r)
                    if first and any(m not in known for m, _, _ in r['viol']):
                        ex.shutdown(wait=False, cancel_futures=True)
                        break
        except BrokenProcessPool as e:
            print('HARNESS-ERROR a worker died:', e)
            return 2

    events = {m.name: Counter() for m in monitors}
    n_eval, skipped, cases, viol, errors = Counter(), Counter(), {}, [], []
    maxcpu = Counter()
    for r in results:
        events[r['monitor']].update(r['events'])
        n_eval[r['monitor']] += r['n']
        skipped[r['monitor']] += r['skipped']
        maxcpu[r['monitor']] = max(maxcpu[r['monitor']], r['maxcpu'])
        d = cases.setdefault(r['monitor'], {})
        for k, t in r['cases']:
            d.setdefault(k, t)
        viol += [(r['monitor'], *v) for v in r['viol']]
        errors += r['errors']

    bymech, knownhit = {}, {}
    for mon, mech, idx, msg in viol:
        (knownhit if mech in known else bymech).setdefault(mech, []).append((mon, idx, msg))

    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for key in sorted(knownhit):
        print(f'KNOWN-FINDING: property={prop} {key}: {known[key]} ({len(knownhit[key])} observations)')
    for key, desc in known.items():
        if key not in knownhit:
            print(f'KNOWN-FINDING: property={prop} {key}: {desc} (listed; not observed in this run)')
    nv = 0
    for mech in sorted(bymech):
        for mon, idx, msg in sorted(bymech[mech])[:MAX_PER_MECH]:
            path = os.path.join(HERE, 'replays', f'{prop}-{mon}-{idx}-{tier}-{seed}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, monitor=mon, index=idx, seed=seed, tier=tier, mechanism=mech,
                               message=msg), f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  [{mech}] monitor={mon} case={idx}\n  ' + msg.replace('\n', '\n  ')[:1500])
            nv += 1

    shortfall = []
    for m in monitors:
        if a.only or a.scale < 1:
            continue
        ev = events[m.name]
        for k, need in m.need.items():
            if ev[k] < need:
                shortfall.append(f'{m.name}: {k}={ev[k]} < {need}')
        if not m.need and ev['assertions'] == 0:
            shortfall.append(f'{m.name}: no assertion was evaluated')

    wall = time.time() - t0
    samples = []
    for mn in cases:
        for t in list(cases[mn].values())[:3]:
            samples.append({'monitor': mn, 'case': t})
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=int(sum(n_eval.values())),
                  distinct_nontrivial=int(sum(len(c) for c in cases.values())),
                  rule=getattr(_MOD, 'RULE', '').strip(),
                  samples=samples[:40],
                  monitors={m.name: dict(what=m.doc, cases=n_eval[m.name], skipped=skipped[m.name],
                                         distinct=len(cases.get(m.name, {})),
                                         max_cpu_s=round(maxcpu[m.name], 3),
                                         events=dict(events[m.name])) for m in monitors},
                  known_findings_observed={k: len(v) for k, v in knownhit.items()}),
              assumptions=getattr(_MOD, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=nv)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only and a.scale == 1.0:
        with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    tot = Counter()
    for c in events.values():
        tot.update(c)
    print(f'{prop} tier={tier} seed={seed}: {sum(n_eval.values())} cases '
          f'({ev["coverage"]["distinct_nontrivial"]} distinct), {tot["assertions"]} assertions, {nv} violations, '
          f'{wall:.1f} s')
    if os.environ.get('VERIF_DEBUG'):
        for m in monitors:
            print('  ', m.name, n_eval[m.name], 'skip', skipped[m.name], 'maxcpu', round(maxcpu[m.name], 2),
                  dict(events[m.name]))
    if nv:
        return 1
    if errors:
        print('HARNESS-ERROR', len(errors))
        for e in errors[:3]:
            print(e)
        return 2
    if shortfall:
        print('INCONCLUSIVE', '; '.join(shortfall))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
