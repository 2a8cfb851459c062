"""C23 parallel computation (-X, interpolationParallel, threads) changes nothing but the time it takes."""
import os
import signal
import time

import numpy as np

import execs as ex_
import gen
import scene as sc
from c13 import run_api
from forks import Fork, child, warm

QUICK, THOROUGH, WORKERS = 72, 1000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 240
RULE = ('distinct (mode, target, shape, cells outside, cells without coordinates, correction, table created or read, way, parallel or not, number of threads) runs compared with the '
        'serial run of the same execution')
REQUIRE = {'serial': 50, 'parallel': 100, 'grib_parallel': 40, 'api_default': 15, 'threads': 40, 'cross': 60, 'refused': 10, 'cells': 20000, 'outside': 300, 'killed_workers': 3}
ASSUMPTIONS = ['values may differ by 1e-12 (relative) between numbers of threads, and by 1e-9 when a table is created in one run and read in the other']
SHAPES = [(1, 7), (9, 1), (3, 4), (5, 5), (30, 20), (120, 2), (2, 120), (24, 33)]
MODES = ['grib_nearest', 'adw', 'grib_invdist', 'cdd', 'nearest', 'grib_invdist', 'invdist', 'grib_nearest', 'bilinear', 'adw', 'triangulation', 'bilinear_delaunay']


def quick_bar():
    """the progress bar of dask sleeps ten seconds at the end of every computation"""
    import dask.diagnostics.progress as dp

    class Time:
        sleep = staticmethod(lambda s: time.sleep(min(s, .02)))
    dp.time = Time


def harder_target(w, rng, ex):
    """some cells outside the grid, some without coordinates"""
    ex.feat['outside'] = ex.feat['coords'] = False
    if not (ex.maps[0].endswith('.map') and ex.maps[1].endswith('.map')):
        return 0
    (la, _), (lo, _) = gen.read_pcr(ex.maps[0]), gen.read_pcr(ex.maps[1])
    out = 0
    if rng.random() < .6 and ex.feat['mode'] not in ('bilinear', 'triangulation', 'bilinear_delaunay'):
        far = w.np.rand(*la.shape) < rng.choice([.1, .4])
        far[0, 0] = False
        la[far] += rng.choice([-25., 25.])
        ex.feat['outside'] = bool(far.any())
        out = int(far.sum())
    if rng.random() < .5:
        none = w.np.rand(*la.shape) < .15
        none[0, 0] = False
        a, b = sc.split_missing(w, none)
        la[a], lo[b] = np.nan, np.nan
        ex.feat['coords'] = bool(none.any())
    for p, a in ((ex.maps[0], la), (ex.maps[1], lo)):
        gen.write_pcr(p, np.nan_to_num(a), None, np.isnan(a))
    return out


def threads(n):
    import numba
    numba.set_num_threads(n)


def one(w, ex, way, parallel, create, tables, n, name, refused=False):
    """runs the execution; [(step, map)] or a text"""
    quick_bar()
    threads(n)
    if way == 'api':
        c = ex.api_conf(create, tables)
        del c['interpolationParallel']
        if parallel is not None:
            c['interpolationParallel'] = parallel
        r, vals, api = run_api(w, c)
        if refused:
            return r.brief() if not r.ok and vals is None else 'not refused'
        if not r.ok or vals is None:
            return r.brief()
        mv = api.mv
        return [(int(k.end_step), np.where((np.asarray(v) == mv) if mv == mv else np.isnan(v), np.nan, np.asarray(v, float))) for k, v in vals.items()]
    od = w.outdir('out_' + name)
    r = w.cli(ex.argv(w, od, 'netcdf', w.path(f'c_{name}.json'), create, tables) + (['-X'] if parallel else []))
    if refused:
        return r.brief() if r.rc == 1 and not os.listdir(od) else f'not refused: {r.brief()} {os.listdir(od)}'
    if not r.ok:
        return r.brief()
    return ex_.read_out(od, 'netcdf')


def forget(w):
    """no tables are known"""
    p = os.path.join(w.pyg2p_home, 'intertables.json')
    if os.path.exists(p):
        os.unlink(p)


def children(pid):
    res = []
    for t in os.listdir(f'/proc/{pid}/task'):
        try:
            with open(f'/proc/{pid}/task/{t}/children') as f:
                res += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return res


def run(w, rng, o, i):
    mode = MODES[i % len(MODES)]
    grib_mode = mode.startswith('grib')
    shape = rng.choice(SHAPES)
    ex = ex_.compose(w, rng, modes=[mode], kinds=('inst', 'inst', 'accum', 'avg', 'two') if rng.random() < .4 else ('inst',), correction=.25, shape=shape, netcdf_targets=min(shape) > 1)
    out = harder_target(w, rng, ex)
    warm(ex.grib)
    ex_.parameters(w)
    if ex.geos:
        st, res = child(lambda: [(w.cli(['-g', g]).rc, g) for g in ex.geos])
        if not o.check(st == 'ok' and not any(rc for rc, _ in res), 'parallel-geo', lambda: f'-g: {st} {res}'):
            return
    what = f'{ex.key()} shape {shape} {ex_.dump(ex)}'
    o.case = dict(what=what)
    o.sample(dict(execution=ex.key(), shape=shape))
    home = [w.outdir(f'tab{k}') for k in range(6)]

    def go(way, parallel, create, tables, n, name, refused=False):
        st, res = child(lambda: one(w, ex, way, parallel, create, tables, n, name, refused), 200)
        o.sig(f'{ex.key()}|{shape}|{way}|{parallel}|{create}|{n}')
        if st == 'ok':
            return res
        return f'{st} {res}'

    # the reference: one process, one thread
    ref = go('cli', False, True, home[0], 1, 'serial')
    if not o.check(isinstance(ref, list) and len(ref) > 0, 'serial-run', lambda: f'{what}: serial run failed {ref}'):
        return
    o.count('serial')
    o.count('cells', sum(v.size for _, v in ref))
    o.count('outside', out)
    if rng.random() < .7:
        forget(w)
        # no table and -B not given: refused, parallel or not
        r = go('cli', True, False, w.outdir('tab_none'), 2, 'none', True)
        o.check('not refused' not in str(r) and not os.listdir(w.path('tab_none')), 'parallel-refused', lambda: f'{what}: -X without table and -B: {r} {os.listdir(w.path("tab_none"))}')
        o.count('refused')
    plans = [('cli', True, rng.choice([2, 3, 4])), ('api', rng.choice([True, None, None]), rng.choice([1, 4]))]
    if rng.random() < .3 or mode in ex_.ADW:
        plans.append(('cli', False, rng.choice([2, 3, 4])))
    for k, (way, par, n) in enumerate(plans):
        t = home[1 + k]
        forget(w)
        got = go(way, par, True, t, n, f'p{k}')
        label = f'{way} parallel={par} threads={n}'
        if not o.check(isinstance(got, list), 'parallel-run', lambda: f'{what}: {label} failed where the serial run succeeds: {got}'):
            continue
        o.check(ex_.same_maps(got, ref, 1e-12, 1e-12), 'parallel-maps', lambda: f'{what}: {label} differs from serial: {ex_.first_diff(got, ref)}')
        if par is not False:
            o.count('parallel')
            o.count('grib_parallel', int(grib_mode))
            o.count('api_default', int(way == 'api' and par is None))
        if n > 1:
            o.count('threads')
        # its table serves serial runs and the other way round
        for par2 in (False, True):
            again = go('cli', par2, False, t, 1, f'q{k}{par2}')
            o.check(isinstance(again, list) and ex_.same_maps(again, ref), 'parallel-table', lambda: f'{what}: run (parallel={par2}) with the table made by {label}: '
                    f'{again if not isinstance(again, list) else ex_.first_diff(again, ref)}')
            o.count('cross')
    if grib_mode and i % 2 == 0:
        killed_worker(w, rng, o, ex, what, ref)


def killed_worker(w, rng, o, ex, what, ref):
    """a worker process of the pool dies: the run fails or is right, and nothing of it is taken for complete later"""
    t = w.outdir('tab_kill')
    forget(w)
    f = Fork(lambda: one(w, ex, 'cli', True, True, t, 1, 'kill'), 'kill')
    end = time.time() + 60
    victim = None
    while victim is None and not f.ended() and time.time() < end:
        ch = children(f.pid)
        if ch:
            victim = rng.choice(ch)
            time.sleep(rng.choice([0, .001, .005, .02]))
            try:
                os.kill(victim, signal.SIGKILL)
            except OSError:
                victim = None
                break
        time.sleep(.0005)
    st, res = f.result(120)
    if victim is None:
        return
    o.count('killed_workers')
    if not o.check(st in ('ok', 'error'), 'parallel-killed-end', lambda: f'{what}: a worker of the pool was killed: the run did not end ({st})'):
        return
    if isinstance(res, list):
        o.check(ex_.same_maps(res, ref, 1e-12, 1e-12), 'parallel-killed-maps', lambda: f'{what}: a worker of the pool was killed: maps differ {ex_.first_diff(res, ref)}')
    else:
        o.count('failed_after_kill')
    for k in range(2):
        again = child(lambda: one(w, ex, 'cli', True, not k, t, 1, f'kill{k}'), 120)
        o.check(again[0] == 'ok' and isinstance(again[1], list) and ex_.same_maps(again[1], ref), 'parallel-killed-again', lambda: f'{what}: after the death of a worker, the same run '
                f'({"with" if not k else "without"} -B): {again if not isinstance(again[1], list) else ex_.first_diff(again[1], ref)}')
