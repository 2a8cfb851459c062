"""C20 whatever interrupts a run or a registration, tables and configuration stay usable and are never taken for complete when they are not."""
import hashlib
import json
import os
import re
import shutil

import execs as ex_
import gen
from forks import COUNT, FAIL_FROM, FAIL_ONCE, INTERRUPT, KILL, PARTIAL, Faults, child, warm

QUICK, THOROUGH, WORKERS = 16, 320, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 400
PRELOAD = 'faultfs.c'
RULE = ('distinct (operation, initial state, interpolation mode, kind of fault, changing call at which it happened) after which configuration, tables, geopotentials, '
        'the interrupted operation and the other executions were checked')
REQUIRE = {'faults': 300, 'killed': 90, 'partial': 25, 'failed_calls': 60, 'interrupted': 20, 'reruns': 500, 'others': 100, 'new_ones': 50, 'refused_before': 60, 'kept_files': 300, 'geo_faults': 30}
ASSUMPTIONS = ['the process is interrupted, not the machine: what a system call wrote stays written', 'faults happen at calls that change files of the user configuration, table and geopotential folders']
KINDS = {KILL: 'kill', PARTIAL: 'partial', FAIL_FROM: 'full', FAIL_ONCE: 'once', INTERRUPT: 'int'}
_faults = []


def files(*folders):
    res = {}
    for k, d in enumerate(folders):
        for base, _, fs in os.walk(d):
            for f in fs:
                with open(os.path.join(base, f), 'rb') as h:
                    res[k, os.path.relpath(os.path.join(base, f), d)] = hashlib.md5(h.read()).hexdigest()
    return res


class State:
    """the folders a run changes, kept aside so that every fault starts from the same state"""

    def __init__(self, w, n):
        self.dirs = [w.pyg2p_home, w.tables, w.geos]
        self.keep = w.path(f'keep{n}')
        os.makedirs(self.keep)
        for k, d in enumerate(self.dirs):
            if os.path.exists(d):
                shutil.copytree(d, os.path.join(self.keep, str(k)))
        self.files = files(*self.dirs)

    def restore(self, w, *out):
        for k, d in enumerate(self.dirs):
            w.wipe(d)
            if os.path.exists(os.path.join(self.keep, str(k))):
                shutil.copytree(os.path.join(self.keep, str(k)), d)
        for d in out:
            w.wipe(d)
            os.makedirs(d)


def perform(w, ex, od, create, way, json_path, tables=None):
    if way == 'api':
        r, vals = w.api(ex.api_conf(create, tables=tables))
        good = r.exc is None and vals is not None
        return good, r.brief(), ({int(k.end_step): __import__('numpy').array(v, float) for k, v in vals.items()} if good else None)
    r = w.cli(ex.argv(w, od, way, json_path, create, tables=tables))
    good = r.exc is None and r.rc == 0
    return good, r.brief(), (ex_.content(od) if good else None)


def user_json(home):
    """entries of the configuration of the user, None for a file that cannot be read"""
    res = {}
    if os.path.exists(home):
        for f in sorted(os.listdir(home)):
            if f.endswith('.json'):
                try:
                    with open(os.path.join(home, f)) as h:
                        res[f] = json.load(h)
                except ValueError:
                    res[f] = None
    return res


def run(w, rng, o, i):
    if not _faults:
        _faults.append(Faults())
    ff = _faults[0]
    geo_op = i % 4 == 3
    way = 'netcdf' if geo_op else rng.choice(['netcdf', 'netcdf', 'pcraster', 'api'])
    # a table of the same kind, so that names clash
    other = ex_.compose(w, rng, tag='in_', sub='other', kinds=('inst',), correction=0, nmax=6, lon1=5.)
    clash = rng.random() < .6           # both would like the same file name for their tables
    while True:
        ex = ex_.compose(w, rng, tag='in_', sub='this', kinds=('inst', 'inst', 'accum', 'members') if not geo_op else ('inst',), correction=1. if geo_op else .4, nmax=6, lon1=100., modes=[other.feat['mode']] if clash else ex_.MODES, shape=other.shape if clash else None)
        if not geo_op or ex.feat['corr']:
            break
        w.wipe(w.path('this'))
    state = rng.choice(['empty', 'others', 'others', 'missing', 'no_home']) if not geo_op else rng.choice(['empty', 'others', 'others'])
    corrected = ex.feat['corr']
    if way == 'pcraster' and not ex.maps[2].endswith('.map'):
        way = 'netcdf'
    watch_out = way != 'api' and not geo_op and rng.random() < .4
    if state == 'no_home' and corrected:
        state = 'empty'
    opt = w.tables if state == 'no_home' else None
    warm(ex.grib)
    what = f'{"-g" if geo_op else way} {state} {ex.key()}'
    o.case = dict(what=what, doc=ex_.dump(ex))
    od, od2, js = w.outdir('o1'), w.outdir('o2'), w.path('x.json')
    state0 = State(w, 0)
    mine = {'description': 'mine', 'mm': {'@description': 'my own', '@shortName': 'mm', '@unit': 'm', 'Conversion': {'@function': 'x=x*2', '@id': 'twice', '@unit': 'n'}}}
    old_tbl = {'Iold_entry': {'filename': 'tbl_old.npy.gz', 'method': 'nearest', 'source_shape': [4], 'target_shape': [2, 2]}}

    def prepare():
        """the initial state, and what the operation and the others give without faults"""
        if state == 'no_home':
            shutil.rmtree(w.pyg2p_home)
        if state in ('others', 'missing'):
            gen.write_json(w.pyg2p_home + '/parameters.json', mine)
            gen.write_json(w.pyg2p_home + '/intertables.json', old_tbl)
            with open(os.path.join(w.tables, 'tbl_old.npy.gz'), 'wb') as f:
                f.write(b'whatever')
            ok, msg, ref_other = perform(w, other, od2, True, 'netcdf', js)
            if not ok:
                return 'other', msg
        else:
            ref_other = None
        if not geo_op:
            for g in ex.geos:
                r = w.cli(['-g', g])
                if not r.ok:
                    return 'geo', r.brief()
        elif state == 'others':
            ok, msg, _ = perform(w, ex, od, True, 'netcdf', js)       # creates the table, then has no geopotential
        s1 = State(w, 1)
        if geo_op:
            r = w.cli(['-g', ex.geos[0]])
            if not r.ok:
                return 'geo', r.brief()
        ok, msg, ref = perform(w, ex, od, True, way, js, opt)
        if not ok:
            return 'this', msg
        if state == 'missing':
            # the table of this operation has an entry but no file
            tables = [v['filename'] for k, v in user_json(w.pyg2p_home)['intertables.json'].items() if isinstance(v, dict) and k != 'Iold_entry']
            known = [v['filename'] for k, v in (json.load(open(os.path.join(s1.keep, '0', 'intertables.json')))).items() if isinstance(v, dict)]
            for t in tables:
                if t not in known:
                    os.unlink(os.path.join(w.tables, t))
            shutil.rmtree(s1.keep)
            s1 = State(w, 1)
        ok, msg, ref_new = perform(w, other, od2, True, 'netcdf', js, w.tables)
        return ('ok', (s1, ref, ref_other, ref_new)) if ok else ('new', msg)
    st, res = child(prepare)
    if not o.check(st == 'ok' and res[0] == 'ok', 'crash-reference', lambda: f'{what}: without faults: {st} {res}'):
        return
    s1, ref, ref_other, ref_new = res[1]
    ff.watch(w.pyg2p_home, w.tables, w.geos, *([od] if watch_out else []))

    def operation(mode=COUNT, n=0, err=28):
        ff.arm(mode, n, err)
        try:
            if geo_op:
                r = w.cli(['-g', ex.geos[0]])
                res = r.exc is None and r.rc == 0, r.brief(), None
            else:
                res = perform(w, ex, od, True, way, js, opt)
        finally:
            k, ops = ff.off()
        return res, k, ops
    s1.restore(w, od)
    st, res = child(operation)
    if not o.check(st == 'ok' and res[0][0], 'crash-reference', lambda: f'{what}: counting run: {st} {res}'):
        return
    total, ops = res[1], res[2]
    calls = [x for x in ops if not x.startswith(('flock', 'unlock'))]
    if not o.check(total >= 3 and len(calls) == total, 'crash-reference', lambda: f'{what}: only {ops} calls seen'):
        return
    o.count('changing_calls', total)
    plan = [(KILL, n, 0) for n in range(1, total + 1)]
    plan += [(PARTIAL, n, 0) for n in range(1, total + 1) if calls[n - 1].startswith('write')]
    plan += [(FAIL_FROM, n, 28) for n in range(1, total + 1) if calls[n - 1].startswith('write')]
    plan += [(FAIL_ONCE, n, rng.choice([5, 28, 13])) for n in range(1, total + 1)]
    plan += [(INTERRUPT, n, 0) for n in range(1, total + 1)]
    limit = 30 if w.tier == 'quick' else 80
    if len(plan) > limit:
        # every kind of fault; writes of a big table many times over are alike
        first = {}
        for p in plan:
            first.setdefault((p[0], re.sub('[0-9]+', '', calls[p[1] - 1])), p)
        must = list(first.values())
        rng.shuffle(must)
        rest = [p for p in plan if p not in must]
        rng.shuffle(rest)
        plan = (must + rest)[:limit]
    rng.shuffle(plan)
    for mode, n, err in plan:
        s1.restore(w, od, od2)
        st, res = child(lambda: operation(mode, n, err))
        where = f'{what}: {KINDS[mode]} at call {n}/{total} ({calls[n - 1]}) -> {st} {res if st != "ok" else res[0][1]}'
        if not o.check(st in ('ok', 'died', 'error'), 'crash-stuck', lambda: where):
            continue
        if mode in (KILL, PARTIAL):
            if not o.check(st == 'died', 'crash-harness', lambda: f'{where}: not interrupted'):
                continue
        if st == 'error' and mode != INTERRUPT:
            o.fail('crash-harness', where)
            continue
        done = st == 'ok' and res[0][0]
        if done and not geo_op:
            d = ex_.differ(ref, res[0][2], 1e-9)
            o.check(d is None, 'fault-unnoticed', lambda: f'{where}: the run ends well with other results: {d}')
        # what was there before
        now = user_json(w.pyg2p_home)
        for f, c in now.items():
            o.check(c is not None, 'crash-config', lambda: f'{where}: {f} of the user cannot be read: {open(os.path.join(w.pyg2p_home, f)).read()[:100]!r}')
        for f, c in user_json(os.path.join(s1.keep, '0')).items():
            lost = {k for k, v in c.items() if not now.get(f) or now[f].get(k) != v}
            o.check(not lost, 'crash-entries', lambda: f'{where}: entries {sorted(lost)[:3]} of {f} lost')
        if done and geo_op:
            new = [v for k, v in (now.get('geopotentials.json') or {}).items() if v == os.path.basename(ex.geos[0])]
            o.check(new, 'fault-unnoticed', lambda: f'{where}: ends well without an entry: {now.get("geopotentials.json")}')
            o.count('done_with_fault')
        left = files(*s1.dirs)
        for k, v in s1.files.items():
            if not k[1].endswith(('.json', '.lock')):
                o.check(left.get(k) == v, 'crash-files', lambda: f'{where}: {k[1]} changed or lost')
                o.count('kept_files')
        if any(c is None for c in now.values()):
            continue

        def after():
            log = []
            if ref_other is not None:
                log.append(('other', perform(w, other, od2, False, 'netcdf', js)))
            log.append(('before', perform(w, ex, w.outdir('o3'), False, way, js, opt)))
            w.wipe(w.path('o3'))
            if ref_other is None:
                # another execution, new after the interruption
                log.append(('new', perform(w, other, od2, True, 'netcdf', js, w.tables)))
            if geo_op:
                r = w.cli(['-g', ex.geos[0]])
                log.append(('again', (r.exc is None and r.rc == 0, r.brief(), [m for lv, m in r.log])))
            log.append(('create', perform(w, ex, od, True, way, js, opt)))
            log.append(('read', perform(w, ex, od, False, way, js, opt)))
            if ref_other is not None:
                log.append(('other', perform(w, other, od2, False, 'netcdf', js)))
            return log
        st, log = child(after)
        if not o.check(st == 'ok', 'crash-after', lambda: f'{where}: afterwards: {st} {log}'):
            continue
        refused = False
        for name, (good, msg, got) in log:
            if name == 'again':
                o.check(good or 'already' in (msg + ' '.join(got)).lower() or done, 'crash-geo-again', lambda: f'{where}: registering again: {msg}')
                continue
            want = {'other': ref_other, 'new': ref_new}.get(name, ref)
            if name == 'before':
                refused = not good
                if done and not geo_op:
                    # its table is in place
                    o.check(good, 'fault-unnoticed', lambda: f'{where}: the run ends well but the next one, without -B, fails: {msg}')
                    o.count('done_with_fault')
                if good:
                    d = ex_.differ(want, got, 1e-9)
                    o.check(d is None, 'crash-incomplete-used', lambda: f'{where}: next run without -B: {d}')
                continue
            if o.check(good, 'crash-rerun' if name not in ('other', 'new') else 'crash-other', lambda: f'{where}: afterwards {name}: {msg}'):
                d = ex_.differ(want, got, 1e-9)
                o.check(d is None, 'crash-result' if name not in ('other', 'new') else 'crash-other', lambda: f'{where}: afterwards {name}: {d}')
            o.count({'other': 'others', 'new': 'new_ones'}.get(name, 'reruns'))
        o.count('faults')
        if calls[n - 1].split(':')[1].startswith(ex.doc['Execution']['OutMaps']['@namePrefix']):
            o.count('output_faults')
        o.count({KILL: 'killed', PARTIAL: 'partial', INTERRUPT: 'interrupted'}.get(mode, 'failed_calls'))
        if refused:
            o.count('refused_before')
        if done:
            o.count('noticed_nothing')
        if geo_op:
            o.count('geo_faults')
        o.sig(state, 'geo' if geo_op else way, ex.feat['mode'], KINDS[mode], ''.join(c for c in calls[n - 1] if not c.isdigit()))
    s1.restore(w, od, od2)
