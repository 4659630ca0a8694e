"""check / worker / replay / determinism.  See ../check."""
import argparse
import copy
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import core  # noqa: E402
from core import derive  # noqa: E402

EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
WALL = {'quick': 240, 'thorough': 780}


def tame(plan):
    """cross-validation over a grid of C is too slow for larger training sets (libsvm, not the library)"""
    text = json.dumps(plan)
    if 'cv_risk' not in text and 'rankcv' not in text and 'fitlight' not in text:
        return

    def walk(v):
        if isinstance(v, dict):
            if 'lab' in v and v['n'] > 10:
                v['n'] = 10
            if 'rbf' in v and 'norm' in v:      # unnormalized kernels have to do without the large values of C
                v['norm'] = True
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(plan)


def plan_for(prop, tier, seed, i):
    from registry import SCENARIOS
    rng = derive(seed, prop, tier, i)
    plan = SCENARIOS[prop].gen(rng, tier)
    plan['prop'] = prop
    tame(plan)
    plan.setdefault('faults', [])
    plan['cfg'].setdefault('np_seed', rng.randrange(10 ** 6))
    return core.deep_norm(plan)


def judge_passes(plan):
    """run a plan; timeouts are repeated with more time before they count"""
    passes = core.run_plan(plan, timeout=100)
    if passes[-1]['status'] == 'timeout':
        passes = core.run_plan(plan, timeout=240)
        if passes[-1]['status'] == 'timeout':
            passes[-1].update(status='violation', vclass='no-progress', msg='the run does not end', stats=None)
    return passes


# ---------------------------------------------------------------- worker

def worker(a):
    from registry import SCENARIOS  # noqa: F401  (import before the first fork)
    end = time.monotonic() + a.wall
    out = open(a.out, 'w')
    agg = {'runs': 0, 'passes': 0, 'steps': 0, 'kernel_evals': 0, 'ops': 0, 'switches': 0, 'faults': {}, 'probes': {},
           'nontrivial': 0, 'unfired': 0}
    hashes, inter, states, sites = set(), set(), set(), set()
    samples, hashlist = [], []
    res = {'end': 'done'}
    for i in range(a.w, a.n, a.W):
        if time.monotonic() > end:
            res = {'end': 'wall'}
            break
        plan = plan_for(a.prop, a.tier, a.seed, i)
        passes = judge_passes(plan)
        agg['runs'] += 1
        bad = None
        for p in passes:
            st = p.get('stats')
            agg['passes'] += 1
            if st:
                for k in ('steps', 'kernel_evals', 'ops', 'switches'):
                    agg[k] += st[k]
                for d in ('faults', 'probes'):
                    for k, v in st[d].items():
                        agg[d][k] = agg[d].get(k, 0) + v
                if st['nontrivial'] and st['hash'] not in hashes:
                    agg['nontrivial'] += 1
                hashes.add(st['hash'])
                hashlist.append([i, st['hash']])
                inter.add(st['inter'])
                states.update(st['states'])
                sites.update(st['sites'])
            if p['status'] != 'ok':
                bad = p
                break
        if plan['faults'] and bad is None and not passes[-1]['fired']:
            agg['unfired'] += 1
        if len(samples) < 2 and bad is None and passes[-1]['stats']['nontrivial']:
            samples.append({'run': i, 'plan': passes[-1]['plan'], 'fired': passes[-1]['fired'],
                            'steps': passes[-1]['stats']['steps']})
        if bad is not None:
            res = {'end': bad['status'], 'run': i, 'bad': bad}
            break
    res.update(agg=agg, hashes=sorted(hashes), inter=sorted(inter), states=sorted(states), sites=sorted(sites),
               samples=samples)
    if a.hashes:
        res['hashlist'] = hashlist
    json.dump(res, out)
    out.close()


# ---------------------------------------------------------------- minimisation

def fails_like(plan, vclass, timeout=60):
    passes = core.run_plan(plan, timeout)
    p = passes[-1]
    return p if p['status'] == 'violation' and p['vclass'] == vclass else None


def minimise(bad, budget=60.0):
    """drop operations, faults and thread switches while the same class of violation persists"""
    t0 = time.monotonic()
    plan, vclass = copy.deepcopy(bad['plan']), bad['vclass']
    best = fails_like(plan, vclass)
    tries = 1
    if best is None:
        return bad, 0
    if bad.get('switches'):
        cand = copy.deepcopy(plan)
        cand['sched'] = {'mode': 'explicit', 'switches': best['switches'][0]}
        p = fails_like(cand, vclass)
        if p is not None:
            plan, best = cand, p

    def attempt(cand):
        nonlocal plan, best, tries
        if time.monotonic() - t0 > budget:
            return False
        tries += 1
        p = fails_like(cand, vclass)
        if p is None:
            return False
        plan, best = cand, p
        return True

    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        chunk = max(1, len(plan['ops']) // 2)
        while chunk >= 1:
            i = 0
            while i < len(plan['ops']):
                cand = copy.deepcopy(plan)
                gone = {o['u'] for o in cand['ops'][i:i + chunk]}
                del cand['ops'][i:i + chunk]
                cand['faults'] = [f for f in cand['faults'] if f.get('op') not in gone]
                if cand['ops'] and attempt(cand):
                    changed = True
                else:
                    i += chunk
            chunk //= 2
        i = 0
        while i < len(plan['faults']):
            cand = copy.deepcopy(plan)
            del cand['faults'][i]
            if attempt(cand):
                changed = True
            else:
                i += 1
        if plan.get('sched', {}).get('mode') == 'explicit':
            chunk = max(1, len(plan['sched']['switches']) // 2)
            while chunk >= 1:
                i = 0
                while i < len(plan['sched']['switches']):
                    cand = copy.deepcopy(plan)
                    del cand['sched']['switches'][i:i + chunk]
                    if attempt(cand):
                        changed = True
                    else:
                        i += chunk
                chunk //= 2
    return best, tries


# ---------------------------------------------------------------- check

def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    e.setdefault('PYTHONHASHSEED', '0')
    return e


def spawn_workers(prop, tier, seed, n, W, wall, hashes=False, tag='', extra_env=None):
    tmp = os.path.join(EVID, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    procs = []
    for w in range(W):
        out = os.path.join(tmp, '%s.%s.%d%s.json' % (prop, os.getpid(), w, tag))
        cmd = [sys.executable, os.path.join(HERE, 'driver.py'), 'worker', prop, '--tier', tier, '--seed', str(seed),
               '--w', str(w), '--W', str(W), '--n', str(n), '--wall', str(wall), '--out', out]
        if hashes:
            cmd.append('--hashes')
        e = env()
        e.update(extra_env or {})
        procs.append((subprocess.Popen(cmd, env=e, stderr=subprocess.PIPE), out))
    results = []
    stop = None
    while procs:
        for p, out in list(procs):
            if p.poll() is None:
                continue
            procs.remove((p, out))
            err = p.stderr.read().decode()[-3000:]
            if p.returncode != 0 or not os.path.exists(out):
                if p.returncode in (-15, -9) and stop is not None:
                    continue
                results.append({'end': 'harness_error', 'bad': {'error': err or 'worker died'}, 'run': -1})
            else:
                with open(out) as fh:
                    results.append(json.load(fh))
            if os.path.exists(out):
                os.unlink(out)
            if results[-1]['end'] not in ('done', 'wall') and stop is None:
                stop = time.monotonic() + 20      # the others may find a smaller index
        if stop is not None and time.monotonic() > stop:
            for p, _ in procs:
                p.terminate()
            stop = time.monotonic() + 1e9
        time.sleep(0.05)
    return results


def merge(results):
    agg = {}
    sets = {'hashes': set(), 'inter': set(), 'states': set(), 'sites': set()}
    samples = []
    for r in results:
        if 'agg' not in r:
            continue
        for k, v in r['agg'].items():
            if isinstance(v, dict):
                d = agg.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                agg[k] = agg.get(k, 0) + v
        for k in sets:
            sets[k].update(r[k])
        samples += r['samples']
    samples.sort(key=lambda s: s['run'])
    return agg, sets, samples[:3]


def check(a):
    from registry import META, RUNS
    t0 = time.monotonic()
    tier, seed, prop = a.tier, a.seed, a.prop
    n = a.n or RUNS[prop][tier]
    W = a.W or min(8, os.cpu_count() or 1)
    print('VERIF_SEED=%d property=%s tier=%s runs=%d workers=%d' % (seed, prop, tier, n, W), flush=True)
    results = spawn_workers(prop, tier, seed, n, W, a.wall or WALL[tier])
    agg, sets, samples = merge(results)
    bads = sorted((r for r in results if r['end'] == 'violation'), key=lambda r: r['run'])
    errs = [r for r in results if r['end'] not in ('done', 'wall', 'violation')]
    code = 0
    line = None
    if bads:
        bad = bads[0]['bad']
        best, tries = minimise(bad) if not a.no_min else (bad, 0)
        rdir = os.path.join(EVID, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d-%d.json' % (prop, seed, bads[0]['run']))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'run': bads[0]['run'],
                       'vclass': best['vclass'], 'msg': best['msg'], 'fired': best.get('fired'),
                       'plan': best['plan'], 'minimisation_runs': tries}, fh, indent=1)
        r = subprocess.run([sys.executable, os.path.join(HERE, 'driver.py'), 'replay', path, '--quiet'], env=env(),
                           capture_output=True, text=True)
        print('%s: %s' % (best['vclass'], best['msg']))
        print('run %d of seed %d; minimised to %d operations, %d faults, %s switches in %d runs; replay in a fresh '
              'process: %s' % (bads[0]['run'], seed, len(best['plan']['ops']), len(best['plan']['faults']),
                               len(best['plan'].get('sched', {}).get('switches', [])), tries,
                               'reproduced' if r.returncode == 1 else 'NOT reproduced (%d)' % r.returncode))
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
        code = 1
    elif errs:
        for r in errs[:2]:
            print('HARNESS ERROR in run %s: %s' % (r.get('run'), r['bad'].get('error') or r['bad']), file=sys.stderr)
        code = 2
    wall = time.monotonic() - t0
    agg = agg or {}
    runs = agg.get('runs', 0)
    meta = META[prop]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'wall_s': round(wall, 2),
          'violations': 1 if bads else 0,
          'coverage': {
              'evaluations': agg.get('passes', 0),
              'distinct_nontrivial': agg.get('nontrivial', 0),
              'rule': meta['rule'] + '; distinct by the hash of the whole event log of the run',
              'samples': samples,
              'simulated_runs': runs,
              'runs_requested': n,
              'stopped_by_wall_limit': any(r['end'] == 'wall' for r in results),
              'runs_per_hour': int(runs / wall * 3600) if wall else 0,
              'simulated_steps': agg.get('steps', 0),
              'simulated_time': 'the code has no clock; simulated time is counted in steps (interruptible points)',
              'library_operations': agg.get('ops', 0),
              'kernel_evaluations_through_the_seam': agg.get('kernel_evals', 0),
              'thread_switches': agg.get('switches', 0),
              'faults_fired': agg.get('faults', {}),
              'fault_plans_that_never_fired': agg.get('unfired', 0),
              'fault_sites': len(sets['sites']),
              'distinct_event_logs': len(sets['hashes']),
              'distinct_interleavings': len(sets['inter']),
              'distinct_interleavings_measure': 'hash of the sequence of operation starts, injected faults (kind, '
                                                'site) and thread switches',
              'distinct_states': len(sets['states']),
              'distinct_states_measure': 'scenario-specific abstraction of object state and fault position',
              'probes': agg.get('probes', {}),
              'workers': W},
          'assumptions': meta['assumptions']}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    try:
        os.rmdir(os.path.join(EVID, 'tmp'))
    except OSError:
        pass
    print('%d runs (%d executions, %d non-trivial and distinct), %d steps, %d switches, faults %s, %.1f s' % (
        runs, agg.get('passes', 0), agg.get('nontrivial', 0), agg.get('steps', 0), agg.get('switches', 0),
        json.dumps(agg.get('faults', {}), sort_keys=True), wall))
    if line:
        print(line, flush=True)
    sys.exit(code)


def replay(a):
    from registry import SCENARIOS  # noqa: F401
    with open(a.file) as fh:
        doc = json.load(fh)
    passes = core.run_plan(doc['plan'], timeout=240)
    p = passes[-1]
    if p['status'] == 'violation':
        print('%s: %s' % (p['vclass'], p['msg']))
        print('VIOLATION property=%s replay=%s' % (doc['property'], a.file))
        sys.exit(1 if p['vclass'] == doc['vclass'] else 3)
    print(p['status'], p.get('error', ''))
    sys.exit(0 if p['status'] == 'ok' else 2)


def determinism(a):
    """the same seeds twice: other worker counts, another hash seed, fresh interpreters"""
    total = diff = 0
    for prop in a.props:
        for seed in range(a.seed, a.seed + a.seeds):
            ref = None
            for W, hs in ((3, '0'), (7, '12345'), (5, '1')):
                res = spawn_workers(prop, 'quick', seed, a.n, W, 10 ** 6, hashes=True,
                                    extra_env={'PYTHONHASHSEED': hs})
                bad = [r for r in res if r['end'] != 'done']
                if bad:
                    print(prop, seed, 'ended with', bad[0]['end'], bad[0].get('bad', {}).get('msg') or bad[0]['bad'])
                    sys.exit(1)
                logs = sorted(map(tuple, sum((r['hashlist'] for r in res), [])))
                total += len(logs)
                if ref is None:
                    ref = logs
                elif ref != logs:
                    d = [(x, y) for x, y in zip(ref, logs) if x != y]
                    diff += len(d)
                    print(prop, seed, 'DIFFERS', d[:3])
        print(prop, 'executions compared so far: %d, differing: %d' % (total, diff), flush=True)
    sys.exit(1 if diff else 0)


def show(a):
    plan = plan_for(a.prop, a.tier, a.seed, a.run)
    passes = core.run_plan(plan)
    for p in passes:
        print(json.dumps({k: v for k, v in p.items()}, indent=1)[:8000])


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    for name in ('check', 'worker', 'show'):
        p = sub.add_parser(name)
        p.add_argument('prop')
        p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
        p.add_argument('--n', type=int, default=0)
        p.add_argument('--W', type=int, default=0)
        p.add_argument('--wall', type=float, default=0)
        p.add_argument('--no-min', action='store_true')
        p.add_argument('--w', type=int, default=0)
        p.add_argument('--out')
        p.add_argument('--hashes', action='store_true')
        p.add_argument('--run', type=int, default=0)
    p = sub.add_parser('replay')
    p.add_argument('file')
    p.add_argument('--quiet', action='store_true')
    p = sub.add_parser('determinism')
    p.add_argument('props', nargs='+')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--seeds', type=int, default=3)
    p.add_argument('--n', type=int, default=100)
    a = ap.parse_args()
    {'check': check, 'worker': worker, 'replay': replay, 'determinism': determinism, 'show': show}[a.cmd](a)


if __name__ == '__main__':
    main()
