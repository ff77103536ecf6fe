#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] : decide one property.

Deciding step: every obligation generated from the source now under /repo
(or $VERIF_REPO) by the contracts in contracts/<id>.py is discharged by the
verifier in engine/.  Next to it runs the concrete contract monitor
(monitor/, the same contracts evaluated on the real code), which supplies the
failing input when an obligation fails.

Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import argparse
import importlib
import itertools
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    # the same term order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_one(job):
    prop, i, secs, dims, hard = job
    secs = max(5, min(secs, hard - time.time()))
    sys.setrecursionlimit(20000)
    from engine import harness, vcrt
    m = importlib.import_module('contracts.' + prop)
    label, fn = m.SCENARIOS[i][:2]

    def alarm(*a):
        raise vcrt.Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(secs) + 10)
    try:
        if time.time() > hard:
            r = harness.Result(label)
            r.unsupported = 'time limit'
            return i, dims, r
        try:
            r = harness.run_scenario(label, fn, time.time() + secs, dims)
        except MemoryError:
            r = harness.Result(label)
            r.unsupported = 'memory limit'
        except vcrt.Timeout:
            r = harness.Result(label)
            r.unsupported = 'time limit'
        except Exception:
            r = harness.Result(label)
            r.unsupported = 'engine: ' + traceback.format_exc()[-800:]
        return i, dims, r
    finally:
        signal.alarm(0)


def monitor_cmd(prop, seed, seconds, extra=()):
    return [PY, os.path.join(HERE, 'monitor', 'run.py'), prop,
            '--seed', str(seed), '--seconds', str(seconds)] + list(extra)


def start_monitor(prop, seed, seconds, extra=()):
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
    return subprocess.Popen(monitor_cmd(prop, seed, seconds, extra),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            env=env, cwd='/tmp', text=True)


def finish_monitor(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'error': 'monitor time limit'}
    lines = [l for l in out.splitlines() if l.startswith('{')]
    if not lines:
        return {'error': 'monitor crashed: ' + err[-1500:]}
    return json.loads(lines[-1])


def bounded_dims(dims, limit):
    """assignments of small concrete sizes, smallest first"""
    names = sorted(dims)
    lo = {n: (dims[n] if isinstance(dims[n], int) else 1) for n in names}
    out = []
    for combo in itertools.product(range(3), repeat=len(names)):
        out.append({n: lo[n] + c for n, c in zip(names, combo)})
    out.sort(key=lambda d: (max(list(d.values()) or [0]), -len(
        set(d.values())), sorted(d.items())))
    return out[:limit]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    prop, tier = o.prop, o.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    mon_secs = 240 if thorough else 25
    hard = t0 + (620 if thorough else 420)
    per = 400 if thorough else 200

    mons = [start_monitor(prop, seed, mon_secs)]
    if thorough:
        mons += [start_monitor(prop, seed + 1000 * k, mon_secs)
                 for k in (1, 2)]

    results = []
    import_error = None
    try:
        m = importlib.import_module('contracts.' + prop)
        n = len(m.SCENARIOS)
        labels = [s[0] for s in m.SCENARIOS]
    except ImportError:
        m, n, labels = None, 0, []
        import_error = traceback.format_exc()
    ctx = multiprocessing.get_context('fork')
    if n:
        order = list(range(n))
        heavy = getattr(m, 'HEAVY', ())
        order.sort(key=lambda i: -max([0] + [
            w for s, w in heavy if labels[i].startswith(s)]))
        with ctx.Pool(o.jobs, initializer=limit_memory,
                      maxtasksperchild=1) as pool:
            res = {}
            for i, d, r in pool.imap_unordered(
                    run_one, [(prop, i, per, None, hard) for i in order], 1):
                res[i] = r
                if o.v:
                    show(r)
            # bounded stand-in where the code left the verifier's subset
            jobs = []
            for i in range(n):
                if res[i].unsupported and not any(
                        x[1] != 'proved' for x in res[i].obl):
                    for d in bounded_dims(getattr(res[i], 'dims', {}) or
                                          getattr(m, 'DIMS', {}).get(
                                              labels[i], {}),
                                          18 if thorough else 6):
                        jobs.append((prop, i, 60, d, hard))
            bres = {}
            for i, d, r in pool.imap_unordered(run_one, jobs, 1):
                bres.setdefault(i, []).append((d, r))
                if o.v:
                    print('  bounded', d)
                    show(r)
        results = [(labels[i], res[i], bres.get(i, [])) for i in range(n)]

    # ---- judge
    failed, proved, bounded, undecided, vacuous = [], [], [], [], []
    bfailed = []
    obl_total = obl_ok = 0
    functions, assumptions, backends = set(), set(), {}
    z3_calls = z3_time = 0
    for label, r, bs in results:
        functions.update(r.functions)
        assumptions.update(r.assumptions)
        z3_calls += r.z3_calls
        z3_time += r.z3_time
        bad = [x for x in r.obl if x[1] != 'proved']
        if bad:
            failed += [(x[0], x[2]) for x in bad]
        if not r.unsupported or bad:
            obl_total += len(r.obl)
            obl_ok += len(r.obl) - len(bad)
            for x in r.obl:
                for b, k in x[4].items():
                    backends[b] = backends.get(b, 0) + k
            if not bad:
                if not r.obl or not (r.reach or {}).get('sat', 0) + (
                        r.reach or {}).get('unknown', 0):
                    vacuous.append(label)
                else:
                    proved.append(label)
            continue
        okb = [d for d, b in bs if not b.unsupported and b.obl and
               all(x[1] == 'proved' for x in b.obl)]
        for d, b in bs:
            # reported only when the monitor confirms it on the real code
            bfailed += [('%s (sizes %s)' % (x[0], d), x[2]) for x in b.obl
                        if x[1] != 'proved']
            assumptions.update(b.assumptions)
            functions.update(b.functions)
        if okb:
            bounded.append({'scenario': label, 'sizes': okb,
                            'why': r.unsupported[:200]})
        else:
            undecided.append({'scenario': label,
                              'why': r.unsupported[:300]})
    mres = [finish_monitor(p, mon_secs + 200) for p in mons]
    violation = None
    for r in mres:
        if r.get('violation'):
            violation = r['violation']
            break
    searched = sum(r.get('evaluations', 0) for r in mres)
    if (failed or bfailed or undecided or bounded) and violation is None:
        # search harder for a failing input: an obligation failed, or code
        # left the verifier's subset and the monitor stands in for the proof
        left = max(20, min(120 if failed or bfailed else 60,
                           t0 + 800 - time.time()))
        ps = [start_monitor(prop, seed + 7919 * k, left)
              for k in range(1, 7)]
        for p in ps:
            r = finish_monitor(p, left + 60)
            searched += r.get('evaluations', 0)
            if r.get('violation') and violation is None:
                violation = r['violation']
    if violation:
        failed += bfailed
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obl_total,
            'discharged': obl_ok,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
            'trusted_base': [
                'engine/ (shadow execution of the instrumented source, term '
                'normal form, loop rule) and z3',
                'floating point numbers are treated as real numbers'] +
            sorted(assumptions),
            'functions_under_contract': sorted(functions),
            'scenarios_proved': len(proved),
            'scenarios_bounded_not_counted_as_proved': bounded,
            'scenarios_undecided_monitor_only': undecided,
            'backends': backends,
            'z3_calls': z3_calls,
            'solver_time_s': round(z3_time, 2),
            'proved': proved,
            'bounded_not_confirmed': [a for a, b in bfailed],
            'evaluations': searched,
            'monitor': [{k: r.get(k) for k in
                         ('seed', 'evaluations', 'cases', 'skipped',
                          'error') if r.get(k) is not None} for r in mres],
        },
        'assumptions': sorted(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': 0,
    }
    if m is not None and getattr(m, 'BOUNDS', None):
        ev['coverage']['stated_bounds'] = m.BOUNDS
    rc = 0
    lines = []
    if vacuous:
        lines.append('vacuous scenarios: %s' % ', '.join(vacuous))
    if not n or (not proved and not bounded):
        lines.append('no obligation was generated: %s' % (
            import_error or [u['why'] for u in undecided][:3]))
    if not proved and not bounded and not searched:
        rc = 2          # nothing was decided
    if failed or violation:
        rep = os.path.join(rdir, '%s-%s.json' % (prop, tier))
        data = {'property': prop,
                'failed_obligations': [
                    {'obligation': a, 'verifier_output': b}
                    for a, b in failed[:40]]}
        if violation:
            data['monitor'] = violation
            data['replay_cmd'] = ' '.join(
                monitor_cmd(prop, violation['seed'], 1, ('--replay', rep)))
        else:
            data['search'] = 'monitor tried %d inputs, none fails' % searched
        with open(rep, 'w') as f:
            json.dump(data, f, indent=1)
        for a, b in failed[:8]:
            print('FAILED OBLIGATION %s\n    %s' % (a, (b or '')[:400]))
        if violation:
            print('FAILING INPUT case %s index %s seed %s: %s' % (
                violation['case'], violation['index'], violation['seed'],
                violation['message'][-600:]))
        print('VIOLATION property=%s replay=%s%s' % (
            prop, rep, '' if violation else ' no-failing-input-found'))
        ev['violations'] = 1
        rc = 1
    for f in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for l in lines:
        print(l)
    print('%s %s: %d/%d obligations discharged, %d scenarios proved, %d '
          'bounded, %d undecided, monitor %d evaluations, %.1f s' % (
              prop, tier, obl_ok, obl_total, len(proved), len(bounded),
              len(undecided), searched, time.time() - t0))
    for u in undecided + bounded:
        print('   ', 'bounded' if 'sizes' in u else 'undecided',
              u['scenario'], '--', u['why'][:160])
    return rc


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def show(r):
    bad = [x for x in r.obl if x[1] != 'proved']
    print('%-55s %s obl=%d bad=%d paths=%d %s %.1fs' % (
        r.label, ('UNSUPPORTED ' + r.unsupported[:300]) if r.unsupported
        else 'ok', len(r.obl), len(bad), r.paths, r.reach, r.wall),
        flush=True)
    for x in bad:
        print('   FAILED', x[0], '\n      ', (x[2] or '')[:700])


if __name__ == '__main__':
    sys.exit(main())
