"""C15 PCRaster output: one file per output time, its name and number, georeference, missing cells, agreement with netCDF."""
import os

import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 1320, 5280, 8
LEVEL = 'exploration'
RULE = ('distinct (prefix length, first number, number step, number of maps, aggregation, georeference, sources of the options, missing pattern) combinations whose output '
        'folder was listed and every map compared')
REQUIRE = {'long_prefix': 60, 'maps': 600, 'missing_cells': 2000, 'geo_checked': 600, 'numbered': 150, 'split_names': 100, 'crossed_ext': 30, 'twin_maps': 150, 'kept_files': 60}
ASSUMPTIONS = ['numbers have at most eleven digits']


def name(prefix, number):
    # a long prefix leaves room for the number
    prefix = prefix[:11 - len(str(number))]
    s = prefix + str(number).rjust(11 - len(prefix), '0')
    return s[:8] + '.' + s[8:]


def info(path):
    from osgeo import gdal
    d = gdal.Open(path)
    b = d.GetRasterBand(1)
    return dict(driver=d.GetDriver().ShortName, size=(d.RasterYSize, d.RasterXSize), gt=d.GetGeoTransform(), type=b.DataType, mv=b.GetNoDataValue(),
                scale=d.GetMetadataItem('PCRASTER_VALUESCALE'), raw=b.ReadAsArray())


def run(w, rng, o, i):
    g = sc.pick_grid(rng, editions=(1,))
    src = sc.Source(g)
    cell = rng.choice([1., .5, 5000., .05, 100.])
    shape = (rng.randint(1, 8), rng.randint(1, 8))
    if shape == (1, 1):
        shape = (1, 2)
    gt = (rng.choice([0., -10.5, 2500000., 4e6]), cell, 0., rng.choice([60., 1e6, 5e6, 0.]), 0., -cell)
    tgt = sc.node_target(w, rng, src, shape, gt=gt)
    short = rng.choice(['2t', 'tp', 'tp'])
    accum = short == 'tp'
    dt = rng.choice([1, 3, 6])
    n = rng.choice([1, 2, 3, 5, 12])
    steps = [k * dt for k in range(n)]
    if rng.random() < .4:
        off = rng.choice([1, 4]) * dt
        steps = [s + off for s in steps]
    kind = rng.choice([None, 'accumulation']) if accum and n >= 3 and steps[0] == 0 else None
    msgs = []
    for s in steps:
        m = sc.random_mask(rng, w.np, src.n)
        msgs.append(gen.message(g, short, (0, s) if accum else (s, s), None, sc.field(w.np, src.n, -50, 1000), mask=m, mv=rng.choice([1e20, -1e20])))
    order = list(range(n))
    rng.shuffle(order)
    p = gen.write_grib(w.path('in.grb'), [msgs[k] for k in order])
    ser = {d['end']: d['values'] for d in gen.decode(p)}
    if kind:
        A = dt * rng.choice([1, 2]) if n > 2 else dt
        want = [(s, ser[s] - ser[s - A]) for s in range(A, steps[-1] + 1, A)]
    else:
        A = None
        want = sorted(ser.items())
    num = len(want)
    prefix = rng.choice([None, None, 'p', 't2', 'pR24', 'prefix', 'eightchr', 'ninechars', 'elevenchars', 'precipitation'])
    pre = prefix or short
    ext = rng.choice([None, 1, 2, 4, 24, 50])
    fmap = rng.choice([None, 1, 2, 7, 96, 990, 1995])
    e, f = ext or 1, fmap or 1
    out, args = ({'@unitTime': A} if kind else {}), []
    for k, v, flag in (('namePrefix', prefix, '-n'), ('fmap', fmap, '-f'), ('ext', ext, '-x')):
        if v is None:
            continue
        if rng.random() < .5:
            out['@' + k] = v
        else:
            args += [flag, v]
            if rng.random() < .3 and v != 1:
                out['@' + k] = rng.choice(['other', 'xx']) if k == 'namePrefix' else rng.choice([3, 17])
    # what was in the folder stays, except maps of the same name
    od = w.outdir('out')
    names = [name(pre, f + k * e) for k in range(num)]
    kept = {}
    if rng.random() < .5:
        for k in range(rng.randint(1, 3)):
            q = rng.choice(['readme.txt', name(pre, f + (num + k) * e)[:12], 'x.map', pre + '_None.nc'])
            if q not in names:
                kept[q] = rng.getrandbits(32)
                with open(os.path.join(od, q), 'w') as h:
                    h.write(str(kept[q]))
        if rng.random() < .5:
            with open(os.path.join(od, names[-1]), 'w') as h:
                h.write('an old map')
    agg = sc.agg_conf(A, kind) if kind else None
    mode = sc.node_mode(rng, src)
    how = rng.randrange(3)
    gen.command_json(w.path('c.json'), short, tgt.lat, tgt.lon, tgt.clone, mode, None, dict(out, **({'@format': 'pcraster'} if how == 0 else {})), None, agg)
    res = w.cli(['-c', w.path('c.json'), '-i', p, '-o', od, '-B'] + (['-F', 'pcraster'] if how == 1 else []) + [str(a) for a in args])
    o.case = dict(grid=g.key(), prefix=prefix, fmap=fmap, ext=ext, num=num, gt=gt, shape=shape, args=args, out=out)
    what = f'prefix {pre} fmap {fmap} ext {ext} maps {num} args {args} out {out}'
    if not o.check(res.ok, 'pcr-run', lambda: f'{what}: {res.brief()}'):
        return
    files = sorted(x for x in os.listdir(od) if not x.endswith('.aux.xml'))
    o.check(files == sorted(names + list(kept)), 'pcr-names', lambda: f'{what}: files {files}, expected {sorted(names)} and {sorted(kept)}')
    for q, v in kept.items():
        o.check(os.path.exists(os.path.join(od, q)) and open(os.path.join(od, q)).read() == str(v), 'pcr-other-files', lambda: f'{what}: {q} was changed')
        o.count('kept_files')
    if any(not os.path.exists(os.path.join(od, q)) for q in names):
        return
    ref = info(tgt.clone)
    for (s, flat), q in zip(want, names):
        d = info(os.path.join(od, q))
        exp = sc.on_target(tgt, flat)
        o.check(d['driver'] == 'PCRaster' and d['size'] == shape and np.allclose(d['gt'], ref['gt']) and d['scale'] == ref['scale'] and d['type'] == ref['type'], 'pcr-georeference',
                lambda: f'{what}: {q}: {[d[k] for k in ("driver", "size", "gt", "scale")]} clone {[ref[k] for k in ("size", "gt", "scale")]}')
        got = np.where(d['raw'] == d['mv'], np.nan, d['raw'].astype(float))
        o.check(sc.close(got, exp, 3e-7, 1e-3 if kind else 1e-4), 'pcr-value', lambda: f'{what}: {q} step {s}: {sc.diff(got, exp)}')
        o.count('maps')
        o.count('geo_checked')
        o.count('missing_cells', int(np.isnan(exp).sum()))
        if (fmap or 1) != 1 or (ext or 1) != 1:
            o.count('numbered')
        if len(pre) + len(str(f + (num - 1) * e)) > 8:
            o.count('split_names')
        if len(pre) + len(str(f + (num - 1) * e)) > 11:
            o.count('long_prefix')
        if f < 1000 <= f + (num - 1) * e:
            o.count('crossed_ext')
    if rng.random() < .4:
        r = sc.execute(w, p, tgt, short, mode, agg=agg, out={'@unitTime': A} if kind else None, fmt='netcdf', outdir='twin')
        if o.check(r.ok and len(r.frames) == num, 'pcr-twin-run', lambda: f'{what}: netCDF twin {r.res.brief()}'):
            for (s, v), q in zip(r.frames, names):
                d = info(os.path.join(od, q))
                got = np.where(d['raw'] == d['mv'], np.nan, d['raw'].astype(float))
                o.check(np.array_equal(got, v.astype(np.float32).astype(float), equal_nan=True), 'pcr-netcdf', lambda: f'{what}: {q} differs from the netCDF map of step {s}: {sc.diff(got, v)}')
                o.count('twin_maps')
    o.sig(len(pre), fmap, ext, num, kind, gt[1], bool(args), bool(kept), tgt.clone_missing.any(), how)
