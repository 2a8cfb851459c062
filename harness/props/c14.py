"""C14 height correction: formula over interpolated parameter, interpolated gem and dem; source of the geopotential; missing cells."""
import json
import os
import shutil

import numpy as np
import gen
import scene as sc
import interp as ip
import weights as wt

QUICK, THOROUGH, WORKERS = 480, 5000, 8
LEVEL = 'exploration'
RULE = ('distinct (mode, target kind, geopotential source, dem kind, formula, aggregation, conversion, output format, process history) combinations whose corrected maps were '
        'compared cell by cell with the formula over independently interpolated fields')
REQUIRE = {'maps': 300, 'cells': 6000, 'dem_missing': 400, 'gem_missing': 100, 'p_missing': 200, 'geo_in_file': 30, 'geo_configured': 60, 'geo_refused': 10, 'same_process': 60, 'off_node': 20}
ASSUMPTIONS = ['off the grid nodes the interpolation operator is the one observed on unit fields through the same command line (decided by C06 to C10)']

# formulas of pyg2p and their meaning; no division by values that may be zero
FORMULAS = [
    ('p+gem-dem*0.0065', lambda p, g, d: p + g - d * .0065),
    ('p*gem/(dem+10000)', lambda p, g, d: p * g / (d + 10000)),
    ('p-(dem-gem)*0.0065', lambda p, g, d: p - (d - g) * .0065),
    ('gem-dem+p*0', lambda p, g, d: g - d + p * 0),
    ('where(dem>gem, p-1, p+1)', lambda p, g, d: np.where(d > g, p - 1, p + 1)),
    ('p/gem*((10**((-0.159)+(dem/9200)))/(9.81))', None),
]
FORMULAS[5] = ('p*(10**((-0.159)+(dem/9200)))+gem', lambda p, g, d: p * 10 ** (-.159 + d / 9200) + g)
GEMS = [('(z/9.81)*0.0065', lambda z: z / 9.81 * .0065), ('z', lambda z: z), ('z/9.80665', lambda z: z / 9.80665), ('z*0.0001+9000', lambda z: z * .0001 + 9000), ('sqrt(z)', lambda z: np.sqrt(z))]


def make_geo(w, rng, src, name, mask=None):
    g = gen.Grid(**{k: getattr(src.grid, k) for k in ('kind', 'ni', 'nj', 'lat1', 'lon1', 'dlat', 'dlon', 'edition', 'south_pole', 'N')})
    top = rng.choice([30000., 500., 99990.])
    z = sc.field(w.np, src.n, 0, top)
    if rng.random() < .3:
        z = np.round(z)
    if rng.random() < .1:
        z[:] = 9999. if rng.random() < .5 else 0.
    m = gen.message(g, rng.choice(['z', 'z', 'orog', 'FIS']), (0, 0), None, z, mask=mask, bits=24, mv=rng.choice([9999., 1e20]) if mask is None else 1e20)
    p = gen.write_grib(w.path(name), [m])
    return m, gen.decode(p)[0]['values'], p


def make_dem(w, rng, tgt, name):
    d = sc.field(w.np, tgt.lats.size, -100, 4000).reshape(tgt.shape).astype(np.float32).astype(float)
    if rng.random() < .2:
        d = np.round(d / 500) * 500
    m = np.zeros(tgt.shape, bool)
    if rng.random() < .7:
        m = w.np.rand(*tgt.shape) < rng.choice([.1, .3])
    if rng.random() < .5:
        p = gen.write_pcr(w.path(name + '.map'), d, tgt.gt, m)
        kind = 'pcr'
    else:
        attr, dt = rng.choice(['both', 'fill', 'missing', 'none']), rng.choice(['f8', 'f4'])
        p = gen.write_nc_map(w.path(name + '.nc'), np.arange(tgt.shape[0], 0, -1.), np.arange(tgt.shape[1]) * 1., arr=d, missing=m, attr=attr, dtype=dt, var='dem', mv=rng.choice([-9999., 1e20, 0.]) if not (d == 0).any() else -9999.)
        kind = f'nc/{attr}/{dt}'
    return np.where(m, np.nan, d), p, kind


def register(w, rng, geo):
    """through the command line or as an existing entry"""
    return w.cli(['-g', geo])


def run(w, rng, o, i):
    off = rng.random() < .3
    if off:
        kind, src = ip.pick_source(rng, kinds=('regional', 'south', 'zero', 'rotated'), big=6)
        tgt = ip.make_target(w, rng, w.np, src, p_nc=.3, outside=.3, nmax=6)
        mode = rng.choice(['invdist', 'nearest', 'adw', 'grib_nearest', 'grib_invdist', 'bilinear_delaunay', 'triangulation', 'invdist'])
        if mode.startswith('grib') and not sc.grib_ok(src):
            mode = 'invdist'
        if kind == 'rotated' and mode == 'bilinear_delaunay':
            mode = 'triangulation'
        W, r, _ = wt.extract(w, src, tgt, mode)
        if not o.check(W is not None, 'corr-operator', lambda: f'{mode}: {r.res.brief()}'):
            return
    else:
        src = sc.Source(sc.pick_grid(rng, kinds=('regular_ll',) * 6 + ('rotated_ll', 'regular_gg')))
        tgt = sc.node_target(w, rng, src)
        mode = sc.node_mode(rng, src)
        W = None

    def interpolate(flat):
        if W is None:
            return sc.on_target(tgt, flat)
        miss = np.isnan(flat)
        dead = np.isnan(W).any(1)
        W0 = np.where(np.isnan(W), 0, W)
        e = W0 @ np.where(miss, 0, flat)
        # cells whose weights reach a missing point; weights of exactly zero are left to the interpolation properties
        e[((W0 != 0) & miss).any(1) | dead] = np.nan
        return e.reshape(tgt.shape)

    # which cells can be decided when the field has missing points: a zero weight may or may not be a used point
    short = rng.choice(['2t', '2t', 'tp', '2d'])
    g = src.grid
    accum = gen.PARAMS[short][1] == 'accum'
    if accum:
        g.edition = 1
    agg, conv, steps = None, None, [0, 6, 12][:rng.randint(1, 3)]
    if accum and rng.random() < .6:
        agg, steps = sc.agg_conf(12, 'accumulation'), [0, 6, 12, 18, 24]
    elif not accum and rng.random() < .3:
        agg, steps = sc.agg_conf(12, 'average'), [0, 6, 12, 18, 24]
    if not accum and rng.random() < .4:
        conv = 'k2c'
    elif accum and rng.random() < .4:
        conv = 'tomm'
    a, b = (0., .3) if accum else (240., 310.)
    allow_mask = W is None
    pmask = sc.random_mask(rng, w.np, src.n) if allow_mask else None
    base = np.zeros(src.n)
    msgs = []
    for s in steps:
        base = base + sc.field(w.np, src.n, 0, b / 10) if accum else sc.field(w.np, src.n, a, b)
        msgs.append(gen.message(g, short, (0, s) if accum else (s, s), None, base, mask=pmask, bits=24, mv=9999. if pmask is None else 1e20))
    where = rng.choice(['file', 'registered', 'registered', 'global', 'G', 'jsonG', 'both', 'none'])
    zmask = sc.random_mask(rng, w.np, src.n) if allow_mask and rng.random() < .5 else None
    zmask2 = None
    if where not in ('file', 'both'):
        # the identifier of a grid has the number of its values: as many missing points in the configured file
        zmask, zmask2 = [None if pmask is None else w.np.permutation(pmask) for _ in (0, 1)]
    elif where == 'both' and pmask is not None:
        zmask2 = w.np.permutation(pmask)
    gm, zvals, geo = make_geo(w, rng, src, 'geo.grb', zmask)
    gm2, zvals2, geo2 = make_geo(w, rng, src, 'geo2.grb', zmask2)
    inp = msgs + ([gm] if where in ('file', 'both') else [])
    if rng.random() < .5:
        rng.shuffle(inp)
    p = gen.write_grib(w.path('in.grb'), inp)
    ser = {d['end']: d['values'] for d in gen.decode(p) if d['short'] == short}
    gdir = os.path.join(w.cwd, 'configuration', 'global')
    saved = {f: open(os.path.join(gdir, f)).read() for f in ('global_conf.json', 'geopotentials.json')}
    o.case = dict(grid=g.key(), mode=mode, short=short, agg=agg, conv=conv, where=where, steps=steps, off=off)
    try:
        world(w, rng, o, i, locals())
    finally:
        for f, s in saved.items():
            with open(os.path.join(gdir, f), 'w') as h:
                h.write(s)


def world(w, rng, o, i, v):
    where, geo, geo2, gdir = v['where'], v['geo'], v['geo2'], v['gdir']
    src, tgt, mode, W = v['src'], v['tgt'], v['mode'], v['W']
    args, interp = [], None
    zin = v['zvals']
    if where in ('registered', 'G', 'jsonG', 'both', 'global'):
        use = geo2 if where == 'both' else geo
        r = w.cli(['-g', use])
        reg = json.load(open(os.path.join(w.pyg2p_home, 'geopotentials.json')))
        ids = [k for k, x in reg.items() if x == os.path.basename(use)]
        if not o.check(r.ok and len(ids) == 1 and os.path.exists(os.path.join(w.geos, os.path.basename(use))), 'corr-register', lambda: f'-g: {r.brief()} {ids} {os.listdir(w.geos)}'):
            return
        name = os.path.basename(use)
        if where == 'global':
            gl = w.outdir('global_geos')
            shutil.move(os.path.join(w.geos, name), os.path.join(gl, name))
            json.dump({'geopotentials': gl, 'intertables': w.tables}, open(os.path.join(gdir, 'global_conf.json'), 'w'))
            if rng.random() < .5:
                json.dump({ids[0]: name}, open(os.path.join(gdir, 'geopotentials.json'), 'w'))
                json.dump({'description': ''}, open(os.path.join(w.pyg2p_home, 'geopotentials.json'), 'w'))
            w.fresh()
        elif where in ('G', 'jsonG'):
            alt = w.outdir('alt_geos')
            shutil.copy(geo2, os.path.join(alt, name))   # the folder given for the execution comes first
            zin = v['zvals2']
            if where == 'G':
                args = ['-G', alt]
            else:
                interp = {'@geopotentialDir': alt}
    plans = 2 if rng.random() < .45 else 1
    last = None
    for n in range(plans):
        fi, gi = rng.randrange(len(FORMULAS)), rng.randrange(len(GEMS))
        dem, demp, dkind = make_dem(w, rng, tgt, f'dem{n}')
        if last and rng.random() < .5:
            # only one of the settings differs from the previous run of the process
            k = rng.choice(['dem', 'f', 'gem', 'none'])
            if k != 'dem':
                dem, demp, dkind = last[2:5]
            if k != 'f':
                fi = last[0]
            if k != 'gem':
                gi = last[1]
        last = (fi, gi, dem, demp, dkind)
        fs, f = FORMULAS[fi]
        gs, gf = GEMS[gi]
        param = {'@correctionFormula': fs, '@gem': gs, '@demMap': demp}
        if v['conv']:
            param['@applyConversion'] = v['conv']
        fmt = 'netcdf' if tgt.lat.endswith('.nc') else rng.choice(['netcdf', 'pcraster'])
        out = {'@unitTime': 12} if v['agg'] and v['accum'] else None
        r = sc.execute(w, v['p'], tgt, v['short'], mode, v['agg'], param, out, interp, fmt, args=args, outdir=f'o{n}', json=f'c{n}.json', fresh=n == 0)
        what = f'{v["short"]} {mode} on {src.grid.kind} {fs} | gem {gs} | dem {dkind} | geopotential {where} | {v["agg"]} {v["conv"]} {fmt} run {n}'
        if where == 'none':
            files = [x for x in os.listdir(w.path(f'o{n}')) if not x.endswith('.xml')]
            o.check(r.res.exc is None and r.res.rc == 1 and not files, 'corr-no-geopotential', lambda: f'{what}: {r.res.brief()} wrote {files}')
            o.count('geo_refused')
            o.sig('none', mode, fmt)
            continue
        ser = v['ser']
        if v['agg'] and v['accum']:
            series = [(s, ser[s] - ser[s - 12]) for s in (12, 24)]
        elif v['agg']:
            series = [(12, (ser[0] + ser[6]) / 2), (24, (ser[12] + ser[18]) / 2)]
            series = None
        else:
            series = sorted(ser.items())
        if series is None:
            # average: the plain run of the same input gives the parameter (decided by C02)
            q = sc.execute(w, v['p'], tgt, v['short'], mode, v['agg'], {'@applyConversion': v['conv']} if v['conv'] else None, None, interp, 'netcdf', args=args, outdir=f'plain{n}', json='p.json')
            if not o.check(q.ok, 'corr-plain-run', lambda: q.res.brief()):
                return
            maps = [(s, m) for s, m in q.frames]
        else:
            off, k = {'k2c': (-273.15, 1), 'tomm': (0, 1000)}.get(v['conv'], (0, 1))
            maps = [(s, x * k + off) for s, x in series]
            if v['conv'] == 'tomm':
                maps = [(s, np.where(x < 0, 0, x)) for s, x in maps]
            maps = [(s, v['interpolate'](x)) for s, x in maps]
        with np.errstate(invalid='ignore'):
            gem = v['interpolate'](gf(zin))
            want = [(s, np.where(tgt.clone_missing, np.nan, f(p, gem, dem) + 0 * (p + gem + dem))) for s, p in maps]
        # dem maps of single precision are computed with as such
        top = max([1.] + [np.nanmax(np.abs(m)) for _, m in want if np.isfinite(m).any()])
        good = sc.nc_or_pcr_check(o, r, want, 'corr', what, fmt, scale=1000 * top)
        o.count('dem_missing', int((np.isnan(dem) & ~tgt.clone_missing).sum()))
        o.count('gem_missing', int((np.isnan(gem) & ~tgt.clone_missing).sum()))
        o.count('p_missing', int((np.isnan(maps[0][1]) & ~tgt.clone_missing).sum()))
        o.count('geo_in_file' if where in ('file', 'both') else 'geo_configured')
        if n:
            o.count('same_process')
        if W is not None:
            o.count('off_node')
        o.sig(mode, W is not None, where, dkind, fi, gi, bool(v['agg']), v['conv'], fmt, n, good)
