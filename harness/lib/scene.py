"""Scenes: a source grid, GRIB messages, a target grid and one real run over them."""
import glob
import os

import numpy as np

import gen


def pick_grid(rng, nmin=3, nmax=9, kinds=('regular_ll',), south=True, editions=(1, 2)):
    kind = rng.choice(kinds)
    ed = rng.choice(editions)
    if kind in ('reduced_gg', 'regular_gg'):
        return gen.Grid(kind, edition=ed)
    ni, nj = rng.randint(nmin, nmax), rng.randint(nmin, nmax)
    d = rng.choice([0.25, 0.5, 1., 1.5, 2.])
    dl = rng.choice([0.25, 0.5, 1., 1.5, 2.])
    top = rng.choice([60., 70., 45.5, 30., 10., 3.] + ([-10., -30.5, -50.] if south else []))
    lon1 = rng.choice([0., 5., 10.5, 100., 170., 179., 200., 300., 350., 355.5])
    return gen.Grid(kind, ni=ni, nj=nj, lat1=top, lon1=lon1, dlat=d, dlon=dl, edition=ed)


class Source:
    def __init__(self, grid):
        self.grid = grid
        self.lats, self.lons = gen.grid_latlons(grid)
        self.n = self.lats.size


class Target:
    """Target maps; idx[r, c] is the source node each cell sits on (or None)."""

    def __init__(self, lat, lon, clone, lats, lons, clone_missing, idx=None, gt=None, coord_missing=None):
        self.lat, self.lon, self.clone = lat, lon, clone
        self.lats, self.lons, self.clone_missing, self.idx = lats, lons, clone_missing, idx
        self.shape = lats.shape
        self.gt = gt
        self.coord_missing = np.zeros(self.shape, bool) if coord_missing is None else coord_missing


def wrap_lon(rng, lons):
    """Same meridians, another convention."""
    k = rng.randrange(3)
    if k == 0:
        return lons.copy()
    l360 = np.mod(lons, 360.)
    return l360 if k == 1 else np.where(l360 > 180., l360 - 360., l360)


def split_missing(w, missing):
    """cells without coordinates may lack the latitude, the longitude or both"""
    if missing is None:
        return None, None
    k = w.np.randint(0, 3, missing.shape)
    return missing & (k != 1), missing & (k != 2)


def target_maps(w, lats, lons, clone_missing=None, coord_missing=None, gt=None, name='t', idx=None, clone_values=None):
    lats, lons = np.asarray(lats, float), np.asarray(lons, float)
    cm = np.zeros(lats.shape, bool) if clone_missing is None else clone_missing
    gt = gt or (0., 1., 0., float(lats.shape[0]), 0., -1.)
    p = [w.path(f'{name}_{k}.map') for k in ('lat', 'lon', 'clone')]
    no_lat, no_lon = split_missing(w, coord_missing)
    gen.write_pcr(p[0], lats, gt, no_lat)
    gen.write_pcr(p[1], lons, gt, no_lon)
    gen.write_pcr(p[2], np.ones(lats.shape) if clone_values is None else clone_values, gt, cm)
    return Target(p[0], p[1], p[2], lats, lons, cm, idx, gt, coord_missing)


def random_clone_missing(rng, shape):
    k = rng.randrange(4)
    m = np.zeros(shape, bool)
    if k == 0:
        return m
    for r in range(shape[0]):
        for c in range(shape[1]):
            m[r, c] = rng.random() < (0.15, 0.4, 0.05)[k - 1]
    if m.all():
        m[0, 0] = False
    return m


def node_target(w, rng, src, shape=None, clone_missing=None, name='t', gt=None):
    """Every target cell sits exactly on a source node: nearest is the identity on these nodes."""
    shape = shape or (rng.randint(2, 8), rng.randint(2, 8))
    n = shape[0] * shape[1]
    pool = list(range(src.n))
    if rng.random() < .6 and n <= src.n:
        idx = rng.sample(pool, n)
    else:
        idx = [rng.choice(pool) for _ in range(n)]
    idx = np.array(idx).reshape(shape)
    cm = random_clone_missing(rng, shape) if clone_missing is None else clone_missing
    return target_maps(w, src.lats[idx], wrap_lon(rng, src.lons[idx]), cm, idx=idx, name=name, gt=gt)


def full_target(w, src, name='t', clone_missing=None):
    """All source nodes in order."""
    g = src.grid
    shape = (g.nj, g.ni) if g.kind in ('regular_ll', 'rotated_ll') else (1, src.n)
    idx = np.arange(src.n).reshape(shape)
    return target_maps(w, src.lats[idx], src.lons[idx], clone_missing, idx=idx, name=name)


def field(rng_np, n, lo=0., hi=100.):
    return lo + (hi - lo) * rng_np.rand(n)


def magnitude(rng):
    """of the data of a case, mostly 1"""
    return rng.choice([1., 1., 1., 1., 1., 1e-9, 1e-6, 1e6])


def on_target(target, flat):
    """Expected map of a source field (nan = missing) on a node target."""
    out = flat[target.idx].astype(float)
    out[target.clone_missing | target.coord_missing] = np.nan
    return out


def agg_conf(step, type_, half=False, force=None):
    d = {'@step': step, '@type': type_}
    if half:
        d['@halfweights'] = (True, 'true', 1)[step // 3 % 3]
    if force is not None:
        d['@forceZeroArray'] = force
    return d


class Run:
    def __init__(self, res, frames, raw=None, files=None):
        self.res, self.frames, self.raw, self.files = res, frames, raw, files

    @property
    def ok(self):
        return self.res.ok

    def steps(self):
        return [s for s, _ in self.frames]


def nc_frames(path, var=None):
    d = gen.read_nc(path, var)
    return [(int(t) if float(t).is_integer() else float(t), v) for t, v in zip(d['time'], d['values'])], d


def pcr_frames(folder):
    fs = sorted(f for f in os.listdir(folder) if not f.endswith('.nc') and not f.endswith('.xml'))
    return [(f, gen.read_pcr(os.path.join(folder, f))[0]) for f in fs], fs


def execute(w, grib, target, short='2t', mode='nearest', agg=None, param=None, out=None, interp=None, fmt='netcdf',
            args=(), outdir='out', json='c.json', create=True, fresh=True, json_fmt=None):
    """One command line run. grib: path. Frames: [(end step or file name, map with nan at missing)]."""
    od = w.outdir(outdir)
    o = dict(out or {})
    if json_fmt:
        o['@format'] = fmt
    gen.command_json(w.path(json), short, target.lat, target.lon, target.clone, mode, interp, o, param, agg)
    argv = ['-c', w.path(json), '-i', grib, '-o', od]
    if not json_fmt:
        argv += ['-F', fmt]
    if create:
        argv.append('-B')
    argv += [str(a) for a in args]
    res = w.cli(argv, fresh=fresh)
    frames, raw, files = [], None, None
    if fmt == 'netcdf':
        ncs = glob.glob(os.path.join(od, '*.nc'))
        if res.ok and ncs:
            frames, raw = nc_frames(ncs[0])
            files = ncs
    else:
        if res.ok:
            frames, files = pcr_frames(od)
    return Run(res, frames, raw, files)


def close(a, b, rtol=1e-9, atol=1e-9):
    """Same missing cells and same values."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    return bool(np.allclose(a[~na], b[~nb], rtol=rtol, atol=atol))


def diff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f'shape {a.shape} vs {b.shape}'
    na, nb = np.isnan(a), np.isnan(b)
    m = f'missing got {int(na.sum())} want {int(nb.sum())}, differing missing {int((na != nb).sum())}'
    both = ~na & ~nb
    if both.any():
        e = np.abs(np.where(both, a - b, 0))
        k = np.unravel_index(np.argmax(e), e.shape)
        m += f'; max abs diff {e[k]:.6g} at {k}: got {a[k]:.8g} want {b[k]:.8g}'
    if (na != nb).any():
        k = tuple(np.argwhere(na != nb)[0])
        m += f'; at {k}: got {a[k]} want {b[k]}'
    return m


def decoded_series(path, short, **keys):
    """{end step: flat values with nan} as stored (packed) in the file."""
    return {d['end']: d['values'] for d in gen.decode(path)
            if d['short'] == short and all(d[k] == v for k, v in keys.items())}


def random_mask(rng, rng_np, n, p=None):
    k = rng.randrange(3) if p is None else p
    if k == 0:
        return None
    m = rng_np.rand(n) < (0.1 if k == 1 else 0.35)
    return m if m.any() else None


def nc_or_pcr_check(o, run, want, mech, what, fmt, extra='', scale=None, nc_tol=1e-9):
    """want: [(step, map)] in order. Compares count, order/time and every cell."""
    o.check(run.ok, mech + '-run', f'{what}: run failed {run.res.brief()} {extra}')
    if not run.ok:
        return False
    o.check(len(run.frames) == len(want), mech + '-count',
            lambda: f'{what}: {len(run.frames)} maps, expected {len(want)} ({[s for s, _ in want]}), got {run.steps()} {extra}')
    if len(run.frames) != len(want):
        return False
    good = True
    for (gs, gv), (ws, wv) in zip(run.frames, want):
        if fmt == 'netcdf':
            good &= o.check(gs == ws, mech + '-step', f'{what}: output step {gs}, expected {ws} {extra}')
        # relative to the size of the data: small quantities (rates in m/s) count as much as large ones
        big = np.nanmax(np.abs(wv)) if np.isfinite(wv).any() else 1.
        rt = nc_tol if fmt == 'netcdf' else max(nc_tol, 3e-7)
        good &= o.check(close(gv, wv, rt, nc_tol * max(big, 0. if scale is None else scale)), mech + '-value',
                        lambda: f'{what} step {ws}: {diff(gv, wv)} {extra}')
        o.count('cells', wv.size)
        o.count('missing_cells', int(np.isnan(wv).sum()))
        o.count('maps')
    return bool(good)


def grib_ok(src):
    """ecCodes' own point search needs meridians that grow along the row; other grids are outside what pyg2p decides."""
    g = src.grid
    if g.kind != 'regular_ll':
        return False
    row = src.lons[:g.ni]
    return bool((np.diff(row) > 0).all() and row[0] >= 0 and row[-1] < 360)


def place(rng, param, args, **kv):
    """Pass selectors either on the command line or in the execution file."""
    opts = {'tstart': '-s', 'tend': '-e', 'dataDate': '-D', 'dataTime': '-T'}
    for k, v in kv.items():
        if v is None:
            continue
        if rng.random() < .5:
            args += [opts[k], v]
        else:
            param['@' + k] = rng.choice([v, str(v)]) if v else str(v)
    return args


def node_mode(rng, src, p=.3):
    return 'grib_nearest' if rng.random() < p and grib_ok(src) else 'nearest'
