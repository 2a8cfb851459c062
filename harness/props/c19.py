"""C19 a run leaves nothing open in its process: messages, indexes, files, processes, threads, temporary files, memory."""
import gc
import importlib
import logging
import os
import threading

import numpy as np

import execs as ex_
import gen
import handles
import scene as sc
from c13 import run_api
from obs import Obs

QUICK, THOROUGH, WORKERS = 165, 2000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 240
RULE = ('distinct (workload, kind of call, outcome) runs after which the messages and indexes open in ecCodes, descriptors, processes, threads, temporary files and the state of the process '
        'were compared with those before')
REQUIRE = {'runs': 400, 'failed_runs': 80, 'handles': 2000, 'indexes': 250, 'geo_runs': 40, 'api_runs': 20, 'repeats': 110, 'descriptors_seen': 1000}
ASSUMPTIONS = ['files are closed at the latest when the objects of the run are collected (gc.collect)', 'tables that were loaded stay in memory, once per table']
WORK = ['c18', 'c18', 'repeat', 'c22', 'c13', 'c18', 'c25', 'c14', 'c24', 'c18', 'c22']


class Monitor:
    def __init__(self, w, o, name):
        self.w, self.o, self.name, self.lib, self.depth = w, o, name, handles.install(), 0
        self.inner = type(w)._run
        self.lib.open.clear()
        self.lib.bad.clear()

    def state(self, runs):
        root = logging.getLogger()
        d = handles.descriptors() if runs else None
        kids = []
        for t in os.listdir('/proc/self/task'):
            with open(f'/proc/self/task/{t}/children') as f:
                kids += f.read().split()
        um = os.umask(0)
        os.umask(um)
        tmp = sorted(os.listdir(os.environ['TMPDIR'])) if os.environ.get('TMPDIR') else []
        return dict(descriptors=d, children=kids, threads=sorted(t.name for t in threading.enumerate()), cwd=os.getcwd(), umask=um, temporary=tmp, handlers=len(root.handlers),
                    here=sorted(os.listdir('.')))

    def run(self, fn):
        """stands for World._run"""
        if self.depth:
            return self.inner(self.w, fn)
        self.depth = 1
        try:
            gc.collect()
            before, made = self.state(True), dict(self.lib.made)
            was = set(self.lib.open)
            r = self.inner(self.w, fn)
            o = self.o
            left = {}
            for a in set(self.lib.open) - was:
                left[self.lib.open[a]] = left.get(self.lib.open[a], 0) + 1
            new = {k: v - made.get(k, 0) for k, v in self.lib.made.items()}
            if r.exc is not None:
                e, seen = r.exc, set()
                while e is not None and id(e) not in seen:
                    seen.add(id(e))
                    e.__traceback__ = None
                    e = e.__context__
            outcome = 'ok' if r.ok else 'failed'
            what = f'{self.name}: {r.brief()} (argv {getattr(self, "argv", None)}), opened {new}'
            o.check(not left, 'left-handles', lambda: f'{what}: left open {left}')
            o.check(not self.lib.bad, 'released-twice', lambda: f'{what}: released what is not open {self.lib.bad}')
            self.lib.bad.clear()
            for a in set(self.lib.open) - was:
                del self.lib.open[a]
            gc.collect()
            after = self.state(True)
            for k in before:
                if k == 'descriptors' and getattr(self, 'kind', '') == 'api':
                    continue          # the object of the API is still there
                if k == 'descriptors':
                    a, b = list(before[k]), list(after[k])
                    for x in before[k]:
                        if x in b:
                            b.remove(x)
                            a.remove(x)
                    o.count('descriptors_seen', len(before[k]))
                    o.check(not b, 'left-descriptors', lambda: f'{what}: files left open {b}')
                else:
                    o.check(before[k] == after[k], 'left-' + k, lambda: f'{what}: {k} {before[k]} -> {after[k]}')
            o.count('runs')
            o.count('failed_runs', int(not r.ok))
            o.count('api_runs', int(getattr(self, 'kind', '') == 'api'))
            o.count('handles', new.get('handle', 0))
            o.count('indexes', new.get('index', 0))
            o.sig(self.name, getattr(self, 'kind', ''), outcome, new.get('handle', 0), new.get('index', 0), len(before['descriptors']), str(sorted(left.items())), str(r.exc)[:40] if r.exc else r.rc, bool(new.get('nearest')))
            return r
        finally:
            self.depth = 0


def watch(w, o, name):
    m = Monitor(w, o, name)
    cls = type(w)

    def cli(argv, fresh=True):
        m.argv, m.kind = [str(a) for a in argv], 'geo' if '-g' in argv else 'cli'
        o.count('geo_runs', int('-g' in argv))
        try:
            return cls.cli(w, argv, fresh)
        finally:
            m.argv, m.kind = None, 'api'

    m.kind = 'api'
    w.cli, w._run = cli, m.run
    return m


def unwatch(w):
    for k in ('cli', '_run'):
        w.__dict__.pop(k, None)


def run(w, rng, o, i):
    name = WORK[i % len(WORK)]
    o.case = dict(workload=name)
    handles.install()
    gc.collect()
    if name == 'repeat':
        return repeat(w, rng, o, i)
    start = handles.descriptors()
    m = watch(w, o, name)
    other = Obs(o.prop, o.seed, o.index) if hasattr(o, 'prop') else Obs('C19', 1, i)
    try:
        mod = importlib.import_module(name)
        try:
            mod.run(w, rng, other, rng.randrange(1000))
        except Exception as e:           # what the workload finds wrong is decided by its own check
            o.count('workload_errors')
            o.sample(dict(workload=name, error=repr(e)[:200]))
            e.__traceback__ = None
    finally:
        unwatch(w)
    del other
    gc.collect()
    end = handles.descriptors()
    for x in start:
        if x in end:
            end.remove(x)
    o.check(not end, 'left-descriptors-end', lambda: f'{name}: files open after all runs {end}')


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')


def repeat(w, rng, o, i):
    """the same run again and again, with messages large enough to see one that stays in memory"""
    ni, nj = 420, 300
    g = gen.Grid(ni=ni, nj=nj, lat1=60., lon1=0., dlat=.1, dlon=.1, edition=rng.choice([1, 2]))
    n = ni * nj
    steps = [0, 6, 12, 18]
    mask = w.np.rand(n) < .1 if rng.random() < .5 else None
    short = rng.choice(['2t', 'tp'])
    f = gen.write_grib(w.path('in.grb'), [gen.message(g, short, (0, s) if short == 'tp' else (s, s), None, sc.field(w.np, n, 240, 310) + (s if short == 'tp' else 0), mask=mask) for s in steps])
    shape = (300, 300)
    la = np.linspace(59.8, 31, shape[0])[:, None] * np.ones(shape)
    lo = np.linspace(.3, 41.5, shape[1])[None, :] * np.ones(shape)
    t = sc.target_maps(w, la, lo, None, None)
    agg = rng.choice([None, sc.agg_conf(6, 'accumulation' if short == 'tp' else rng.choice(['average', 'instantaneous']))])
    e = {'@name': 'x', 'Parameter': {'@shortName': short}, 'OutMaps': {'@cloneMap': t.clone, '@namePrefix': 'm', 'Interpolation': {'@latMap': t.lat, '@lonMap': t.lon, '@mode': 'nearest'}}}
    conv = rng.random() < .5
    if conv:
        e['Parameter']['@applyConversion'] = 'k2c' if short == '2t' else 'tomm'
    corr = short == '2t' and rng.random() < .5
    if agg:
        e['Aggregation'] = agg
    if corr:
        dem = gen.write_pcr(w.path('dem.map'), np.full(shape, 500.))
        z = gen.write_grib(w.path('z.grb'), [gen.message(g, 'z', (0, 0), None, sc.field(w.np, n, 0, 20000), mask=mask)])
        r = w.cli(['-g', z])
        if not o.check(r.ok, 'repeat-geo', lambda: r.brief()):
            return
        e['Parameter'].update({'@correctionFormula': 'p+gem-dem*0.0065', '@gem': '(z/9.81)*0.0065', '@demMap': dem})
    ex = ex_.Execution()
    ex.doc, ex.grib = {'Execution': e}, f
    way = rng.choice(['netcdf', 'netcdf', 'pcraster', 'api'])
    failing = rng.random() < .25
    end = ['-e', '600'] if failing and agg else ['-s', '12', '-e', '6'] if failing else []
    fresh = rng.random() < .3

    def once(k):
        od = w.outdir('out')
        if way == 'api':
            c = ex.api_conf(True)
            r, v, a = run_api(w, c)
            return r.ok
        r = w.cli(ex.argv(w, od, way, w.path('c.json')) + (end if k else []), fresh=fresh)
        r.exc = None
        w.wipe(od)
        return r.ok
    what = f'{way} agg={agg} conv={conv} corr={corr} mask={mask is not None} failing={bool(end)} fresh={fresh}'
    o.case = dict(what=what)
    if not o.check(once(0), 'repeat-run', lambda: f'{what}: fails'):
        return
    seen = []
    for k in range(14):
        once(k + 1)
        gc.collect()
        seen.append(rss())
        o.count('repeats')
        o.count('runs')
    o.count('failed_runs', 14 if end and way != 'api' else 0)
    # the smallest growth over windows: single jumps are fragmentation, an array that stays comes back with every run
    grown = min(seen[k + 5] - seen[k] for k in range(4, 9))
    o.sig('repeat', what)
    o.sample(dict(repeat=what, grown=grown))
    o.check(grown < 5 * n * 8 * .8, 'left-memory', lambda: f'{what}: memory grows by {grown // 5} bytes with every run (a message has {n * 8}): {seen}')
