"""usage: run.py PROP --seed N --seconds S [--replay FILE] [--out FILE]"""
import sys, os, time, json, traceback
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
MODS = {'cases_params': ['C%02d' % i for i in range(1, 10)],
        'cases_objectives': ['C10', 'C11', 'C12', 'C13', 'C14', 'C15'],
        'cases_stats': ['C16', 'C17', 'C18', 'C19'],
        'cases_utils': ['C20', 'C21', 'C22', 'C23']}


def load(prop):
    for m, ps in MODS.items():
        if prop in ps:
            __import__(m)


def run_case(prop, name, fun, seed, index):
    rng = lib.Rng(seed, prop, name, index)
    try:
        with lib.quiet():
            fun(rng)
        return None
    except lib.Skip:
        return 'SKIP'
    except lib.Violation as e:
        return str(e)
    except AssertionError as e:
        return 'unexpected AssertionError: ' + traceback.format_exc()[-1500:]
    except Exception:
        return 'unexpected exception: ' + traceback.format_exc()[-1500:]


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('prop'); a.add_argument('--seed', type=int, default=1)
    a.add_argument('--seconds', type=float, default=20); a.add_argument('--replay')
    a.add_argument('--min-rounds', type=int, default=2)
    a.add_argument('--max-rounds', type=int, default=100000)
    a.add_argument('--only')
    o = a.parse_args()
    t0 = time.time()
    res = {'property': o.prop, 'seed': o.seed, 'evaluations': 0, 'violation': None, 'cases': {}, 'sample': None}
    try:
        load(o.prop)
    except Exception:
        res['violation'] = {'case': 'import', 'index': 0, 'seed': o.seed, 'message': traceback.format_exc()[-2000:]}
        print(json.dumps(res)); return
    cases = lib.CASES[o.prop]
    if o.replay:
        r = json.load(open(o.replay))
        m = r['monitor']
        for n, f, w in cases:
            if n == m['case']:
                msg = run_case(o.prop, n, f, m['seed'], m['index'])
                print('replay %s %s index %d: %s' % (o.prop, n, m['index'], msg or 'held'))
                sys.exit(1 if msg and msg != 'SKIP' else 0)
        sys.exit(2)
    rnd = 0
    while rnd < o.max_rounds and (rnd < o.min_rounds or time.time() - t0 < o.seconds):
        for n, f, w in cases:
            if o.only and n != o.only:
                continue
            for k in range(w):
                if rnd >= o.min_rounds and time.time() - t0 > o.seconds:
                    break
                idx = rnd * w + k
                msg = run_case(o.prop, n, f, o.seed, idx)
                if msg == 'SKIP':
                    res['skipped'] = res.get('skipped', 0) + 1
                    continue
                res['evaluations'] += 1
                res['cases'][n] = res['cases'].get(n, 0) + 1
                if msg:
                    res['violation'] = {'case': n, 'index': idx, 'seed': o.seed, 'message': msg}
                    res['wall_s'] = time.time() - t0
                    print(json.dumps(res)); return
        rnd += 1
    res['wall_s'] = time.time() - t0
    print(json.dumps(res))


main()
