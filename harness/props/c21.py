"""C21 runs and commands that go on at the same time, with one user configuration, do what they do one after the other."""
import json
import os
import shutil

import execs as ex_
import gen
import scene as sc
from c20 import State, files, perform, user_json
from forks import COUNT, DELAY, HOLD, Faults, Fork, child, warm

QUICK, THOROUGH, WORKERS = 24, 480, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 400
PRELOAD = 'faultfs.c'
RULE = ('distinct (operations going on together, initial state, call at which the first one was held while the second one went on, or random delays) after which results, '
        'configuration and tables were checked')
REQUIRE = {'schedules': 300, 'held': 150, 'delayed': 40, 'runs': 450, 'later_runs': 600, 'lock_waits': 15, 'same_table': 40, 'name_clashes': 60, 'geo': 40, 'geo_same_name': 10, 'checks': 15, 'reads': 15}
ASSUMPTIONS = ['processes, not threads: ecCodes is not used from several threads of a process', 'a process is held at calls that open, change or lock files of configuration, tables and geopotentials']
_faults = []
PAIRS = ['same', 'clash', 'clash', 'first', 'reader', 'geo', 'geo_name', 'geo_twice', 'geo_run', 'check', 'recreate', 'shared_out']


class Op:
    def __init__(self, kind, ex=None, way='netcdf', od=None, create=True, path=None, name='', may_refuse=False):
        self.kind, self.ex, self.way, self.od, self.create, self.path, self.name, self.may_refuse = kind, ex, way, od, create, path, name, may_refuse
        self.ref = self.tables = None

    def do(self, w):
        if self.kind == 'run' and self.way != 'api':
            # what is in the folder is looked at when all have ended
            r = w.cli(self.ex.argv(w, self.od, self.way, w.path(f'{self.name}.json'), self.create, tables=self.tables))
            return r.exc is None and r.rc == 0, r.brief(), None
        if self.kind == 'run':
            return perform(w, self.ex, self.od, self.create, self.way, w.path(f'{self.name}.json'), self.tables)
        r = w.cli(['-g', self.path] if self.kind == 'geo' else ['-K'])
        return r.exc is None and r.rc == 0, r.brief() + ' '.join(m for _, m in r.log)[-300:], None

    def __str__(self):
        return f'{self.kind}({self.way} {self.ex.feat["mode"]}{"" if self.create else " no -B"})' if self.kind == 'run' else self.kind


def run(w, rng, o, i):
    if not _faults:
        _faults.append(Faults())
    ff = _faults[0]
    pair = PAIRS[i % len(PAIRS)]
    crowd = rng.choice([0, 0, 1, 2])
    mode = rng.choice(ex_.MODES)

    def ex(sub, lon1, modes=(mode,), **k):
        # inputs of one name and targets of one size: tables would like one file name
        return ex_.compose(w, rng, tag='in_', sub=sub, kinds=('inst',), nmax=6, lon1=lon1, modes=list(modes), **dict(dict(correction=0), **k))
    ways = ['netcdf', 'netcdf', 'api', 'pcraster']

    def op(n, e, **k):
        way = k.pop('way', None) or rng.choice(ways)
        if way == 'pcraster' and not e.maps[2].endswith('.map'):
            way = 'netcdf'
        return Op('run', e, way, w.outdir(f'o{n}'), name=f'op{n}', **k)

    def geo(n, lon1, name, **k):
        os.makedirs(w.path(f'g{n}'))
        g = gen.Grid(ni=6, nj=5, lat1=40., lon1=lon1, dlat=1., dlon=1., edition=1)
        z = gen.write_grib(w.path(f'g{n}', name), [gen.message(g, 'z', (0, 0), None, sc.field(w.np, 30, 0, 20000))])
        return Op('geo', path=z, name=f'op{n}', **k)
    e0 = ex('e0', 5.)
    other = ex('other', 200.) if rng.random() < .5 or pair in ('reader', 'recreate', 'check') else None
    gone = None          # its table has an entry but no file
    if pair in ('same', 'first'):
        ops = [op(0, e0), op(1, e0)]
    elif pair == 'clash':
        ops = [op(0, e0), op(1, ex('e1', 100., shape=e0.shape))]
    elif pair == 'shared_out':
        e1 = ex('e1', 100., shape=e0.shape)
        e0.doc['Execution']['OutMaps']['@namePrefix'], e1.doc['Execution']['OutMaps']['@namePrefix'] = 'pA', 'pB'
        ops = [op(0, e0), op(1, e1)]
        if {ops[0].way, ops[1].way} <= {'netcdf', 'pcraster'}:
            ops[1].od = ops[0].od
    elif pair == 'reader':
        ops = [op(0, e0), op(1, other, create=False)]
        if rng.random() < .5:
            ops.reverse()
    elif pair == 'geo':
        ops = [geo(0, 5., 'a.grb'), geo(1, 100., 'b.grb')]
    elif pair == 'geo_name':
        ops = [geo(0, 5., 'a.grb', may_refuse=True), geo(1, 100., 'a.grb', may_refuse=True)]
    elif pair == 'geo_twice':
        ops = [geo(0, 5., 'a.grb', may_refuse=True), geo(1, 5., rng.choice(['a.grb', 'b.grb']), may_refuse=True)]
    elif pair == 'geo_run':
        ops = [geo(0, 5., 'a.grb'), op(1, e0)]
        if rng.random() < .5:
            ops.reverse()
    elif pair == 'check':
        ops = [op(0, e0), Op('check', name='op1')]
        if rng.random() < .3:
            ops[0] = geo(0, 5., 'a.grb')
        ops.sort(key=lambda p: (p.kind == 'check') == (i % 24 != 9))
    else:
        gone = other
        ops = [op(0, other), op(1, rng.choice([e0, other]))]
    for k in range(crowd):
        ops.append(op(2 + k, ex(f'c{k}', 250. + 40 * k) if rng.random() < .6 else e0))
    warm(e0.grib)
    runs = [p for p in ops if p.kind == 'run']
    no_home = pair == 'first' and other is None and rng.random() < .6
    no_out = pair == 'shared_out' and rng.random() < .7
    for p in runs:
        p.tables = w.tables if no_home else None
    what = f'{pair} {" + ".join(map(str, ops))}{" with others" if other else ""}{" without user folder" if no_home else ""}{" output folder missing" if no_out else ""}'
    o.case = dict(what=what, docs=[ex_.dump(p.ex) for p in runs])
    oj = w.path('other.json')
    outs = sorted({p.od for p in runs} | {w.outdir('oo')})

    def prepare():
        """the state before, and what each operation gives when they come one after the other"""
        ref_other = None
        if no_home:
            shutil.rmtree(w.pyg2p_home)
        if other:
            ok, msg, ref_other = perform(w, other, w.path('oo'), True, 'netcdf', oj)
            if not ok:
                return 'other', msg
            if gone or pair == 'check':
                for f in os.listdir(w.tables):
                    if gone:
                        os.unlink(os.path.join(w.tables, f))
        elif pair != 'first' and rng.random() < .5:
            w.cli(['-K'])        # creates the configuration files
        s = State(w, 0)
        refs = []
        for p in ops:
            if p.kind == 'run':
                # on its own
                ok, msg, c = perform(w, p.ex, w.outdir('alone'), True, p.way, w.path('alone.json'), p.tables)
                w.wipe(w.path('alone'))
                if not ok:
                    return 'alone', f'{p}: {msg}'
                refs.append(c)
            else:
                refs.append(None)
                if p.kind == 'geo' and p.path and pair not in ('geo_name', 'geo_twice'):
                    r = w.cli(['-g', p.path])
                    if not r.ok:
                        return 'geo', r.brief()
        return 'ok', (s, refs, ref_other, user_json(w.pyg2p_home))
    st, res = child(prepare)
    if not o.check(st == 'ok' and res[0] == 'ok', 'alone', lambda: f'{what}: one after the other: {st} {res}'):
        return
    s0, refs, ref_other, final = res[1]
    for p, c in zip(ops, refs):
        p.ref = c
    ff.watch(w.pyg2p_home, w.tables, w.geos, *([ops[0].od] if no_out else []))
    marks = [w.path(f'mark_{k}') for k in ('here', 'go', 'wait')]

    def count():
        ff.arm(COUNT, reads=True)
        try:
            ops[0].do(w)
        finally:
            n, calls = ff.off()
        return n, calls
    s0.restore(w, *outs)
    st, res = child(count)
    if not o.check(st == 'ok' and res[0] > 3, 'alone', lambda: f'{what}: counting: {st} {res}'):
        return
    total, calls = res
    quick = w.tier == 'quick'
    points = list(range(1, total + 1))
    rng.shuffle(points)
    plan = [(n, None) for n in points[:14 if quick else 200]]
    plan += [(None, rng.choice([500, 3000, 20000])) for _ in range(4 if quick else 15)]
    for n, us in plan:
        s0.restore(w, *outs)
        for m in marks:
            w.wipe(m)
        if no_out:
            w.wipe(ops[0].od)
        ff.marks(*marks) if n else ff.marks('', '', '')

        def start(p, mode, k):
            def go():
                # held or delayed at every point that other processes could notice
                ff.arm(mode, n or 0, reads=True, seed=rng.randrange(1 << 30) + k, us=us or 0)
                try:
                    return p.do(w)
                finally:
                    ff.off()
            return Fork(go, p.name)
        waited = False
        if n:
            first = start(ops[0], HOLD, 0)
            t = 0
            while not os.path.exists(marks[0]) and not first.ended() and t < 20000:
                t += 1
                _nap()
            rest = [start(p, HOLD if False else COUNT, k) for k, p in enumerate(ops[1:])]
            t = 0
            while t < 15000 and not all(f.ended() for f in rest) and not os.path.exists(marks[2]):
                t += 1
                _nap()
            waited = os.path.exists(marks[2])
            with open(marks[1], 'w'):
                pass
            forks = [first] + rest
        else:
            forks = [start(p, DELAY, k) for k, p in enumerate(ops)]
        results = [f.result() for f in forks]
        where = f'{what}: ' + (f'first one held at call {n}/{total} ({calls[n - 1] if n <= len(calls) else "?"}){" (the other one waited for the lock)" if waited else ""}' if n else f'delays up to {us} us')
        accepted = 0
        for p, (st, r) in zip(ops, results):
            if not o.check(st == 'ok', 'together-' + st, lambda: f'{where}: {p}: {r}'):
                continue
            accepted += r[0]
            if p.may_refuse:
                o.check(r[0] or 'not added' in r[1] or 'already' in r[1].lower(), 'together-run', lambda: f'{where}: {p}: {r[1]}')
                continue
            if not o.check(r[0], 'together-run', lambda: f'{where}: {p}: {r[1]}'):
                continue
            o.count('runs')
            if p.kind == 'run':
                got = r[2] if p.way == 'api' else ex_.content(p.od)
                if pair == 'shared_out' and p.way != 'api':
                    got = {k: v for k, v in got.items() if k in p.ref}
                d = ex_.differ(p.ref, got, 1e-9)
                o.check(d is None, 'together-result', lambda: f'{where}: {p}: {d}')
        now = user_json(w.pyg2p_home)
        for f, c in now.items():
            o.check(c is not None, 'together-config', lambda: f'{where}: {f} cannot be read')
        if any(c is None for c in now.values()):
            continue
        if pair in ('geo_name', 'geo_twice'):
            o.check(accepted - len([p for p in ops if not p.may_refuse]) == 1, 'together-geo', lambda: f'{where}: {accepted} accepted: {results}')
            ids = {k: v for k, v in now.get('geopotentials.json', {}).items() if k != 'description'}
            o.check(len(ids) == 1, 'together-entries', lambda: f'{where}: {ids}')
        else:
            for f, c in final.items():
                lost = set(c) - set(now.get(f) or {})
                o.check(not lost, 'together-entries', lambda: f'{where}: entries {sorted(lost)[:3]} of {f} lost')
                more = set(now.get(f) or {}) - set(c)
                o.check(not more, 'together-entries', lambda: f'{where}: entries {sorted(more)[:3]} of {f} in addition')
        tabs = [v['filename'] for v in now.get('intertables.json', {}).values() if isinstance(v, dict)]
        o.check(len(set(tabs)) == len(tabs), 'together-tables', lambda: f'{where}: one file for several tables: {tabs}')
        o.check(all(os.path.exists(os.path.join(w.tables, t)) for t in tabs), 'together-tables', lambda: f'{where}: no file: {tabs}')
        left = files(*s0.dirs)
        for k, v in s0.files.items():
            if not k[1].endswith(('.json', '.lock')):
                o.check(left.get(k) == v, 'together-files', lambda: f'{where}: {k[1]} changed or lost')
        geos = [(p, r) for p, (st, r) in zip(ops, results) if p.kind == 'geo' and st == 'ok' and r[0]]
        for p, r in geos:
            f = os.path.join(w.geos, os.path.basename(p.path))
            o.check(os.path.exists(f) and open(f, 'rb').read() == open(p.path, 'rb').read(), 'together-geo', lambda: f'{where}: {p.path} is not what the folder has')
        tmp = [k[1] for k in left if k[1].split('.')[-1].isdigit() or os.path.basename(k[1]).startswith('.')]
        o.check(not tmp, 'together-leftovers', lambda: f'{where}: {tmp} left')

        def after():
            log = []
            if other:
                log.append((None, perform(w, other, w.path('oo'), False, 'netcdf', oj)))
            for p in runs:
                log.append((p, perform(w, p.ex, w.outdir('later_' + p.name), False, p.way, w.path('later.json'), p.tables)))
                w.wipe(w.path('later_' + p.name))
            return [(None if p is None else ops.index(p), r) for p, r in log]
        st, log = child(after)
        if o.check(st == 'ok', 'together-after', lambda: f'{where}: later: {st} {log}'):
            for k, (good, msg, got) in log:
                want, name = (ref_other, 'other') if k is None else (ops[k].ref, str(ops[k]))
                if o.check(good, 'together-later', lambda: f'{where}: later {name} without -B: {msg}'):
                    d = ex_.differ(want, got, 1e-9)
                    o.check(d is None, 'together-later', lambda: f'{where}: later {name} without -B: {d}')
                o.count('later_runs')
        o.count('schedules')
        o.count('held' if n else 'delayed')
        if waited:
            o.count('lock_waits')
        for name, cond in (('same_table', pair in ('same', 'first')), ('name_clashes', pair in ('clash', 'shared_out')), ('geo', pair.startswith('geo')), ('geo_same_name', pair == 'geo_name'),
                           ('checks', pair == 'check'), ('reads', pair == 'reader')):
            if cond:
                o.count(name)
        o.sig(what, ''.join(c for c in calls[n - 1] if not c.isdigit()) + str(n) if n else us, waited)
    s0.restore(w, *outs)


def _nap():
    import time
    time.sleep(.001)
