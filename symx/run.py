"""Runs the check of one property: explores its harness cases in parallel, replays counterexamples, writes evidence."""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def setup_path():
    from . import zpath
    zpath.setup()


def worker(prop, tier, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import core
    mod = importlib.import_module('harness.' + prop)
    cases = mod.cases(tier)
    exs = {}
    while True:
        job = inq.get()
        if job is None:
            return
        ci, tasks, max_s, want = job
        res = {'case': ci}
        try:
            ex = core.Explorer(cases[ci][1])
            ex.want_samples = want
            left = ex.explore(tasks, max_s)
            res.update(left=left, stats=ex.stats.asdict(), violations=ex.violations, samples=ex.samples, labels=ex.labels,
                       notes=ex.notes)
        except BaseException as e:              # an error of the engine or of the harness
            res.update(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]), left=[])
        try:
            outq.put(res)
        except BaseException as e:
            outq.put({'case': ci, 'error': repr(e), 'left': []})


def replay(prop, tier, case, inputs):
    """Run one concrete input on the plain code in a fresh process.  Returns dict."""
    return replay_many(prop, tier, [{'case': case, 'inputs': inputs}])[0]


def replay_many(prop, tier, items):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), prop, tier, '-'], input=json.dumps(items), text=True,
                       capture_output=True, env=env, timeout=300, cwd=VERIF)
    try:
        return json.loads(p.stdout.splitlines()[-1])
    except Exception:
        return [{'error': 'replay process failed: %s %s' % (p.stdout[-500:], p.stderr[-1500:])}] * len(items)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--case', default=None, help='only cases whose name contains this')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup_path()
    sys.path.insert(0, VERIF)
    from . import core, known, load
    import z3
    harness_mod = importlib.import_module('harness.' + a.prop)
    cases = harness_mod.cases(a.tier)
    budget = a.budget or getattr(harness_mod, 'BUDGET', {}).get(a.tier) or (420 if a.tier == 'quick' else 3000)
    sel = [i for i in range(len(cases)) if a.case is None or a.case in cases[i][0]]

    ctxm = mp.get_context('fork')
    inq, outq = ctxm.Queue(), ctxm.Queue()
    nproc = max(1, a.jobs)
    procs = [ctxm.Process(target=worker, args=(a.prop, a.tier, inq, outq), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()

    queue = collections.deque((ci, [([], None)]) for ci in sel)
    per = {ci: core.Stats() for ci in sel}
    done_case = {ci: True for ci in sel}
    labels, notes, samples, errors = {}, {}, [], []
    case_labels = {ci: {} for ci in sel}
    pend = 0
    cand = []                     # candidate violations
    confirmed, spurious, seen = [], [], set()
    outstanding = {ci: 1 for ci in sel}
    sampled = {ci: 0 for ci in sel}
    t_case = {}
    complete = True
    stop = False

    def feed():
        nonlocal pend
        while queue and pend < nproc + 2:
            ci, tasks = queue.popleft()
            want = 1 if sampled[ci] < 2 else 0
            sl = 0.7 if per[ci].paths == 0 else 2.5
            inq.put((ci, tasks, sl, want))
            pend += 1

    feed()
    while pend and not stop:
        try:
            r = outq.get(timeout=60)
        except Exception:
            if not any(p.is_alive() for p in procs):
                errors.append(('?', 'all workers died'))
                break
            if time.time() - t0 > budget + 240:
                errors.append(('?', 'worker did not answer'))
                break
            continue
        pend -= 1
        ci = r['case']
        if 'error' in r:
            errors.append((cases[ci][0], r['error']))
        else:
            per[ci].add(r['stats'])
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
                case_labels[ci][k] = case_labels[ci].get(k, 0) + v
            for k, v in r['notes'].items():
                notes[k] = notes.get(k, 0) + v
            for s in r['samples']:
                sampled[ci] += 1
                s['case'] = ci
                samples.append(s)
            for v in r['violations']:
                if len(spurious) >= 8:
                    break
                key = (ci, v['label'])
                n = sum(1 for x in cand if x[0] == key)
                if n < 3 and key not in seen:
                    cand.append((key, v))
                    for inp in v['inputs']:
                        rr = replay(a.prop, a.tier, ci, inp)
                        if rr.get('failures'):
                            lab = [f[0] for f in rr['failures']]
                            confirmed.append({'case': ci, 'name': cases[ci][0], 'label': v['label'], 'failures': rr['failures'],
                                              'inputs': inp, 'detail': v.get('detail')})
                            seen.add(key)
                            break
                        last = rr
                    else:
                        if v['label'] == core.UNEXPECTED:
                            errors.append((cases[ci][0], 'only in the symbolic run: %s inputs=%s' % (v.get('detail'), v['inputs'][0])))
                            continue
                        spurious.append({'case': ci, 'name': cases[ci][0], 'label': v['label'], 'inputs': v['inputs'][0],
                                         'detail': v.get('detail'), 'replay': last})
            left = r['left']
            if left:
                # share the work: split into chunks when there is idle capacity
                if pend < nproc and len(left) > 1:
                    k = min(len(left), max(2, nproc - pend))
                    for i in range(k):
                        queue.append((ci, left[i::k]))
                else:
                    queue.append((ci, left))
        new = [c for c in confirmed if not known.match(a.prop, c)]
        if new and not a.keep_going:
            stop = True
        if time.time() - t0 > budget:
            stop = True
        if not stop:
            feed()
    unfinished = set(ci for ci, _ in queue)
    if stop and pend:
        unfinished.add(-1)
    for p in procs:
        p.terminate()
    complete = not unfinished and not stop and not errors

    # ---------------------------------------------------------------- validate the encoding on the plain code
    random.Random(seed).shuffle(samples)
    samples = samples[:60]
    mism, validated = [], 0
    if samples:
        rs = replay_many(a.prop, a.tier, [{'case': s['case'], 'inputs': s['inputs']} for s in samples])
        from .concrete import same
        ot = getattr(harness_mod, 'OBS_TOL', 0)      # floats may round a tie the other way than exact arithmetic
        for s, r in zip(samples, rs):
            if 'error' in r:
                mism.append((cases[s['case']][0], r['error'][:800], s['inputs']))
                continue
            if r.get('skipped'):
                continue
            if r.get('failures'):
                mism.append((cases[s['case']][0], 'concrete run fails: %s' % r['failures'], s['inputs']))
                continue
            ok = len(r['obs']) == len(s['obs']) and all(x[0] == y[0] and same(x[1], y[1], ot) for x, y in zip(s['obs'], r['obs']))
            if ok:
                validated += 1
            else:
                bad = [(x, y) for x, y in zip(s['obs'], r['obs']) if x[0] != y[0] or not same(x[1], y[1], ot)]
                mism.append((cases[s['case']][0], 'observations differ: %s' % repr(bad[:3] or (len(s['obs']), len(r['obs']))), s['inputs']))

    new, kn = [], []
    for c in confirmed:
        e = known.match(a.prop, c)
        (kn if e else new).append((c, e))
    wall = time.time() - t0
    tot = core.Stats()
    for ci in sel:
        tot.add(per[ci])
    vac = [cases[ci][0] for ci in sel if not case_labels[ci] and not stop]
    reach_req = getattr(harness_mod, 'REACH', [])
    unreached = [x for x in reach_req if x not in notes] if (complete and a.case is None) else []

    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': getattr(harness_mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': tot.paths - tot.infeasible, 'transitions': tot.decisions, 'traces_validated_against_impl': validated,
            'samples': [{'case': cases[s['case']][0], 'inputs': {k: v[1] for k, v in s['inputs'].items()}} for s in samples[:3]],
            'explanation': 'bounded symbolic execution of the real source: states = feasible paths, transitions = branch '
                           'decisions made by the solver or its path condition; each path stands for all values satisfying its '
                           'path condition, and every assertion was discharged by z3 on it',
            'exhaustive': bool(complete and not tot.unknown and not tot.concretized and not mism),
            'cases': [{'case': cases[ci][0], 'paths': per[ci].paths, 'queries': per[ci].queries,
                       'complete': ci not in unfinished and not (stop and -1 in unfinished)} for ci in sel],
            'assertions': labels, 'reached': notes,
            'assertion_instances': tot.asserts, 'assertion_queries': tot.assert_queries, 'queries': tot.queries,
            'unknown': tot.unknown, 'concretized': tot.concretized, 'solver_s': round(tot.solver_s, 2),
            'functions_encoded': sorted({f for m in load.ENCODED.values() for f in m}) if getattr(harness_mod, 'ALL_FUNCS', False)
            else getattr(harness_mod, 'FUNCTIONS', []),
            'modules_encoded': sorted(load.ENCODED), 'bounds': getattr(harness_mod, 'BOUNDS', ''),
            'encoding_mismatches': len(mism), 'spurious': len(spurious), 'z3': z3.get_version_string(),
        },
        'assumptions': getattr(harness_mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

    if a.verbose:
        for ci in sel:
            print('  %-40s paths=%d infeasible=%d queries=%d solver=%.1fs %s' % (
                cases[ci][0], per[ci].paths, per[ci].infeasible, per[ci].queries, per[ci].solver_s,
                'UNFINISHED' if ci in unfinished else ''))
        print('  labels', labels)
        print('  notes', notes)
    print('%s %s: %d paths, %d decisions, %d queries, %d assertions (%d solved), solver %.1fs, wall %.1fs, %s; '
          'validated %d, mismatches %d, unknown %d, concretized %d, spurious %d' % (
              a.prop, a.tier, tot.paths, tot.decisions, tot.queries, tot.asserts, tot.assert_queries, tot.solver_s, wall,
              'complete' if complete else 'INCOMPLETE', validated, len(mism), tot.unknown, tot.concretized, len(spurious)))
    for e in known.entries(a.prop):
        hit = any(k is e for _, k in kn)
        print('KNOWN-FINDING: property=%s %s%s' % (a.prop, e['what'], '' if hit else ' (not reached by this run)'))
    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        for c, _ in new[:5]:
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s-%s.json' % (a.prop, a.tier, abs(hash((c['name'], c['label']))) % 10 ** 8))
            with open(path, 'w') as f:
                json.dump({'property': a.prop, 'tier': a.tier, 'case': c['case'], 'case_name': c['name'], 'label': c['label'],
                           'failures': c['failures'], 'inputs': c['inputs']}, f, indent=1, default=str)
            print('  %s [%s]: %s' % (c['name'], c['label'], str(c['failures'])[:600]))
            print('  inputs: %s' % {k: v[1] for k, v in c['inputs'].items()})
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
        rc = 1
    else:
        for s in spurious[:3]:
            print('NOT-REPRODUCED %s [%s] %s inputs=%s replay=%s' % (
                s['name'], s['label'], str(s['detail'])[:1500], {k: v[1] for k, v in s['inputs'].items()}, str(s['replay'])[:300]))
        for m in mism[:3]:
            print('ENCODING-MISMATCH', str(m)[:1500])
        for e in errors[:3]:
            print('ERROR', e[0], e[1])
        if vac and not errors:
            print('VACUOUS: no assertion reached in', vac)
        if unreached:
            print('UNREACHED', unreached)
        strict = os.environ.get('SYMX_STRICT')
        if (unreached and not stop) or (vac and len(vac) == len(sel)) or (strict and (errors or vac)):
            rc = 2
        elif errors or vac:
            print('NOTE: not decided: %s' % sorted(set([e[0] for e in errors] + vac)))
        elif spurious or mism:
            # counterexamples of the encoding that the real code does not show: not reported, coverage marked incomplete
            print('NOTE: %d counterexamples were not reproduced by the real code, %d samples differ' % (len(spurious), len(mism)))
            rc = 2 if strict else 0
    return rc


COMMON_ASSUMPTIONS = [
    'floats are modelled as exact rationals; float literals mean their decimal value; equality of computed floats is asserted '
    'up to 1e-4',
    'print/pprint are no-ops; the random module is replaced by "any outcome"; datetime is real and unconstrained',
    'networkx 2.4 and the Python interpreter are executed, not verified; hash seeds of str are fixed (PYTHONHASHSEED=0)',
]

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
