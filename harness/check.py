#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--only I] : decide one property.

Exit 0 held, 1 + VIOLATION line, 2 inconclusive / harness error.
"""
import argparse
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.path.insert(0, HERE)

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'NUMEXPR_NUM_THREADS': '2', 'NUMEXPR_MAX_THREADS': '8', 'NUMBA_NUM_THREADS': '4', 'GDAL_PAM_ENABLED': 'NO',
       'PYTHONWARNINGS': 'ignore', 'NUMBA_THREADING_LAYER': 'workqueue'}


def case_rng(prop, seed, index):
    return random.Random(zlib.crc32(f'{prop}:{seed}:{index}'.encode()))


def worker(args):
    os.environ['HOME'] = os.path.join(args.base, 'home')
    import numpy as np
    mod = importlib.import_module(args.prop.lower())
    from world import World
    from obs import Obs
    w = World(args.base)
    w.tier = args.tier
    out = open(args.results, 'a', buffering=1)
    w.activate()
    for i in args.indices:
        out.write(json.dumps({'start': i}) + '\n')
        rng = case_rng(args.prop, args.seed, i)
        w.np = np.random.RandomState(rng.randrange(2 ** 31))
        o = Obs(args.prop, args.seed, i)
        t = time.time()
        try:
            w.new_case()
            mod.run(w, rng, o, i)
            d = o.to_json()
        except Exception:
            d = o.to_json()
            d['harness_error'] = traceback.format_exc()[-3000:]
        d['wall'] = round(time.time() - t, 3)
        out.write(json.dumps(d, default=str) + '\n')
    out.write(json.dumps({'done': True, 'runs': w.n_runs}) + '\n')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def spawn(prop, seed, tier, indices, base, results, log):
    env = dict(os.environ)
    env.update(ENV)
    env['HOME'] = os.path.join(base, 'home')
    env['NUMBA_CACHE_DIR'] = os.path.join(os.path.dirname(base), 'numba')
    env['VERIF_TIER'] = tier
    env['VERIF_SEED'] = str(seed)
    env['TMPDIR'] = os.path.join(base, 'tmp')
    shim = os.path.join(os.path.dirname(base), 'faultfs.so')
    if os.path.exists(shim):
        env['LD_PRELOAD'] = shim
    os.makedirs(env['TMPDIR'], exist_ok=True)
    cmd = [PY, os.path.abspath(__file__), prop, '--worker', '--seed', str(seed), '--tier', tier, '--base', base,
           '--results', results, '--indices', ','.join(map(str, indices))]
    lf = open(log, 'ab')
    return subprocess.Popen(cmd, env=env, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, start_new_session=True)


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def read_results(path):
    res, started, done = [], None, False
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if 'start' in d:
                    started = d['start']
                elif d.get('done'):
                    done = True
                else:
                    res.append(d)
                    started = None
    return res, started, done


def run(args):
    t0 = time.time()
    mod_meta = {}
    src = importlib.import_module(args.prop.lower())
    for k in ('QUICK', 'THOROUGH', 'WORKERS', 'RULE', 'REQUIRE', 'LEVEL', 'ASSUMPTIONS', 'CASE_TIMEOUT', 'TITLE'):
        mod_meta[k] = getattr(src, k, None)
    n = args.cases or (mod_meta['THOROUGH'] if args.tier == 'thorough' else mod_meta['QUICK'])
    nw = min(mod_meta['WORKERS'] or 8, n)
    idx = [args.only] if args.only is not None else list(range(n))
    nw = min(nw, len(idx))
    root = tempfile.mkdtemp(prefix=f'vf_{args.prop}_')
    budget = 800 if args.tier == 'quick' else (mod_meta.get('THOROUGH_BUDGET') or 850)
    case_timeout = mod_meta['CASE_TIMEOUT'] or 240
    results, errors, deaths = [], [], []
    try:
        if getattr(src, 'PRELOAD', None):
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', os.path.join(root, 'faultfs.so'), os.path.join(HERE, 'shim', src.PRELOAD), '-ldl'], check=True)
        shards = [idx[k::nw] for k in range(nw)]
        state = []
        for k, sh in enumerate(shards):
            base = os.path.join(root, f'w{k}')
            os.makedirs(base)
            state.append(dict(k=k, todo=list(sh), base=base, gen=0, p=None, seen=0))
        done_idx = set()

        def launch(s):
            s['gen'] += 1
            s['res'] = os.path.join(root, f"res{s['k']}_{s['gen']}.jsonl")
            s['log'] = os.path.join(root, f"log{s['k']}.txt")
            s['p'] = spawn(args.prop, args.seed, args.tier, s['todo'], s['base'], s['res'], s['log'])
            s['last'] = time.time()
            s['size'] = 0

        for s in state:
            launch(s)
        while any(s['p'] for s in state):
            time.sleep(0.1)
            for s in state:
                if not s['p']:
                    continue
                sz = os.path.getsize(s['res']) if os.path.exists(s['res']) else 0
                if sz != s['size']:
                    s['size'], s['last'] = sz, time.time()
                hung = time.time() - s['last'] > case_timeout
                over = time.time() - t0 > budget
                if s['p'].poll() is None and not hung and not over:
                    continue
                was_running = s['p'].poll() is None
                kill(s['p'])
                s['p'].wait()
                rc = s['p'].returncode
                res, started, done = read_results(s['res'])
                results += res
                got = {r['index'] for r in res}
                s['todo'] = [i for i in s['todo'] if i not in got]
                s['p'] = None
                if done:
                    continue
                if over:
                    errors.append(f'time budget {budget}s exhausted, {len(s["todo"])} cases left in shard {s["k"]}')
                    continue
                if started is None:
                    with open(s['log'], 'rb') as lf:
                        tail = lf.read()[-1500:].decode(errors='replace')
                    try:
                        with open(os.path.join(s['base'], 'worker.log'), 'rb') as lf:
                            tail += lf.read()[-1500:].decode(errors='replace')
                    except OSError:
                        pass
                    errors.append(f'worker {s["k"]} ended rc={rc} before a case: {tail}')
                    continue
                # died or hung inside case `started`
                try:
                    with open(os.path.join(s['base'], 'worker.log'), 'rb') as lf:
                        tail = lf.read()[-1500:].decode(errors='replace')
                except OSError:
                    tail = ''
                deaths.append(dict(index=started, hung=hung, rc=rc, tail=tail))
                s['todo'] = [i for i in s['todo'] if i != started]
                if s['todo'] and s['gen'] < 6:
                    launch(s)
        # a process death inside a case is an observation only if it repeats on its own
        confirmed = []
        for d in deaths[:3]:
            base = os.path.join(root, f'retry{d["index"]}')
            os.makedirs(base)
            rf = os.path.join(root, f'retry{d["index"]}.jsonl')
            p = spawn(args.prop, args.seed, args.tier, [d['index']], base, rf, os.path.join(root, 'retry.log'))
            try:
                p.wait(case_timeout)
                hung = False
            except subprocess.TimeoutExpired:
                hung = True
            kill(p)
            p.wait()
            res, started, done = read_results(rf)
            if res:
                results += res
            elif not hung and p.returncode and p.returncode < 0:
                d['signal'] = -p.returncode
                confirmed.append(d)
            else:
                errors.append(f'case {d["index"]}: no answer (hung={d["hung"]}/{hung}, rc={d["rc"]}) {d["tail"][-600:]}')
        for d in confirmed:
            results.append(dict(index=d['index'], counts={'process_deaths': 1}, sigs=[], samples=[], case=None, wall=0,
                                violations=[{'mech': 'process-killed', 'msg': f'process died with signal {d["signal"]}: {d["tail"][-800:]}'}]))
    finally:
        shutil.rmtree(root, ignore_errors=True)

    counts, sigs, samples, viol = {}, set(), [], []
    for r in sorted(results, key=lambda r: r['index']):
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r['sigs'])
        if len(samples) < 6:
            samples += r['samples'][:1]
        for v in r['violations']:
            viol.append(dict(v, index=r['index'], case=r.get('case')))
        if r.get('harness_error'):
            errors.append(f'case {r["index"]}: {r["harness_error"]}')
    known = {}
    for k in load_known():
        if k['property'] == args.prop and k.get('status') == 'known':
            known[k['mech']] = k
    seen_known, fresh = {}, []
    for v in viol:
        if v['mech'] in known:
            seen_known.setdefault(v['mech'], v)
        else:
            fresh.append(v)
    for mech in known:
        # every listed finding is announced on every run; whether it showed up in this run is in the evidence
        print(f'KNOWN-FINDING: property={args.prop} {known[mech]["what"]}')
    missing = [k for k, m in (mod_meta['REQUIRE'] or {}).items() if counts.get(k, 0) < (m if args.cases is None and args.only is None else 0)]
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    wall = round(time.time() - t0, 2)
    ev = dict(property=args.prop, tier=args.tier, seed=args.seed, level=mod_meta['LEVEL'] or 'exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod_meta['RULE'] or '',
                            samples=samples, monitor_counts=counts,
                            known_findings_observed={m: v['msg'] for m, v in seen_known.items()},
                            errors=errors[:5]),
              assumptions=mod_meta['ASSUMPTIONS'] or [], wall_s=wall, violations=len(fresh))
    with open(os.path.join(ev_dir, f'{args.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{args.prop}: {len(results)} cases, {len(sigs)} distinct situations, counts={counts}, wall={wall}s')
    if fresh:
        bymech = {}
        for v in fresh:
            bymech.setdefault(v['mech'], []).append(v)
        for mech, vs in list(bymech.items())[:6]:
            v = vs[0]
            rp = os.path.join(ev_dir, 'replay', f'{args.prop}_{args.seed}_{v["index"]}.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=args.prop, seed=args.seed, tier=args.tier, index=v['index'], mech=mech, msg=v['msg'], case=v['case'],
                               rerun=f'{PY} {os.path.abspath(__file__)} {args.prop} --tier {args.tier} --seed {args.seed} --only {v["index"]}'),
                          f, indent=1, default=str)
            print(f'  [{mech}] x{len(vs)} case {v["index"]}: {v["msg"][:700]}')
            print(f'VIOLATION property={args.prop} replay={rp}')
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR', e[:2500])
        return 2
    if missing:
        print(f'INCONCLUSIVE: monitors not reached: {missing}')
        return 2
    print(f'HELD property={args.prop}')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--only', type=int)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--base')
    ap.add_argument('--results')
    ap.add_argument('--indices')
    a = ap.parse_args()
    if a.worker:
        a.indices = [int(x) for x in a.indices.split(',') if x]
        worker(a)
        return 0
    for k, v in ENV.items():
        os.environ[k] = v
    return run(a)


if __name__ == '__main__':
    sys.exit(main())
