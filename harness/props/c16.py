"""C16 contents of netCDF output: packing, missing cells, valid range, time and coordinate axes, attributes."""
import datetime
import os
import re

import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 1200, 5000, 8
LEVEL = 'exploration'
RULE = ('distinct (value format, scale factor, offset, valid range, step units, target kind, missing pattern, aggregation) combinations whose netCDF file was '
        'read back and compared cell by cell')
REQUIRE = {'maps': 300, 'missing_cells': 2000, 'packed_maps': 150, 'valid_range_maps': 80, 'invalid_cells': 300, 'clone_cells': 400, 'converted_units': 50, 'noon_runs': 30, 'nc_targets': 40, 'unknown_units': 20}
ASSUMPTIONS = ['values fit the requested format after packing, or lie outside the valid range']
INT = {'i1': (-127, 127), 'i2': (-32767, 32767), 'i4': (-2147483647, 2147483647), 'i8': (-2 ** 53, 2 ** 53), 'u1': (0, 255), 'u2': (0, 65535), 'u4': (0, 4294967295), 'u8': (0, 2 ** 53)}
UNIT = {'s': 1 / 3600., 'm': 1 / 60., 'h': 1., '3h': 3., '6h': 6., '12h': 12., 'D': 24.}
UNKNOWN = ['M', 'Y', '10Y', '30Y', 'C', 'week']
NAMES = {'s': 'seconds', 'm': 'minutes', 'h': 'hours', '3h': '3h steps', '6h': '6h steps', '12h': '12h steps', 'D': 'days'}


def subset_target(w, rng, src, name='t'):
    """rows and columns of the source grid: a regular target whose nearest grid points are known"""
    g = src.grid
    r = sorted(rng.sample(range(g.nj), rng.randint(1 + (rng.random() < .85), g.nj)))
    c = sorted(rng.sample(range(g.ni), rng.randint(1 + (rng.random() < .85), g.ni)))
    if rng.random() < .2:
        # from south to north
        r = r[::-1]
    idx = np.arange(src.n).reshape(g.nj, g.ni)[np.ix_(r, c)]
    lats, lons = src.lats[idx], sc.wrap_lon(rng, src.lons[idx])
    cm = sc.random_clone_missing(rng, idx.shape)
    if rng.random() < .35:
        names = rng.choice([('lat', 'lon'), ('y', 'x')])
        p = gen.write_nc_map(w.path(f'{name}.nc'), lats[:, 0], lons[0], missing=cm, names=names, mv=rng.choice([-9999., 1e20, 0.]), dtype=rng.choice(['f8', 'f8', 'f4', 'i4', 'i2', 'i1']), attr=rng.choice(['both', 'fill', 'missing', 'none']))
        return sc.Target(p, p, p, lats, lons, cm, idx), True
    return sc.target_maps(w, lats, lons, cm, idx=idx, name=name), False


def run(w, rng, o, i):
    g = sc.pick_grid(rng, nmin=3, nmax=9)
    src = sc.Source(g)
    tgt, nc = subset_target(w, rng, src)
    short = rng.choice(['2t', '2t', 'tp', 'sd'])
    accum = gen.PARAMS[short][1] == 'accum'
    if accum:
        g.edition = 1
    dt = rng.choice([1, 3, 6, 12, 24])
    steps = [k * dt for k in range(rng.randint(1, 5))]
    if rng.random() < .4:
        steps = [s + dt for s in steps]
    if rng.random() < .3:
        # any hours
        steps = sorted(rng.sample(range(0, 73, min(dt, 6)), len(steps)))
    kind = None if not accum else rng.choice([None, 'accumulation'])
    fmt = rng.choice([None, None, 'f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8'])
    if fmt in INT or len(steps) < 3 or (steps[0] and kind) or any(s not in steps for s in range(0, steps[-1], dt * 2)):
        kind = None
    scale = rng.choice([None, 1, .1, .01, .5, 3., 1e-3, 7.3])
    off = rng.choice([None, 0, 273.15, -20, 100., .3])
    S, O = 1. if scale is None else float(scale), 0. if off is None else float(off)
    if fmt in INT:
        lo, hi = INT[fmt]
        lo, hi = lo + 3, hi - 3
        span = (hi - lo) * rng.choice([1., .3, .001] if fmt in ('i4', 'u4', 'i8', 'u8', 'i2', 'u2') else [1., .6])
        mid = rng.uniform(lo, hi - span)
        a, b = mid * S + O, (mid + span) * S + O
    else:
        a, b = rng.choice([(0., 100.), (-50., 50.), (250., 320.), (1e-6, 1e-3), (0., 1e7)])
    # stored with 24 bits: compare with what the message holds
    vmin = vmax = None
    if rng.random() < .5:
        if rng.random() < .8:
            vmin = round(a + (b - a) * rng.uniform(.1, .4), 3)
        if rng.random() < .8:
            vmax = round(a + (b - a) * rng.uniform(.6, .9), 3)
        if vmin is not None and vmax is not None and vmin >= vmax:
            vmin = None
    wild = fmt in INT and vmin is not None and vmax is not None and rng.random() < .5   # out of the format, but outside the valid range as well
    date, hour = rng.choice([20240115, 20231231, 20240228, 19990630]), rng.choice([0, 0, 600, 1200, 1800, 630])
    msgs = []
    for s in steps:
        v = sc.field(w.np, src.n, a, b)
        if wild:
            far = (b - a) * rng.uniform(1.01, 4)
            v[w.np.rand(src.n) < .3] += far
            v[w.np.rand(src.n) < .2] -= far * rng.uniform(.8, 2)
        mask = sc.random_mask(rng, w.np, src.n)
        msgs.append(gen.message(g, short, (0, s) if accum else (s, s), None, v, mask=mask, date=date, time=hour, bits=24, mv=rng.choice([9999., 1e20, -9999.]) if mask is None else rng.choice([1e20, -1e20])))
    p = gen.write_grib(w.path('in.grb'), msgs)
    ser = {d['end']: d['values'] for d in gen.decode(p)}
    A = dt * 2 if kind else None
    agg = sc.agg_conf(A, kind) if kind else None
    if kind == 'accumulation':
        want = [(s, ser[s] - ser[s - A]) for s in range(A, steps[-1] + 1, A)]
    elif kind is None:
        want = sorted(ser.items())
    unit = rng.choice([None, None] + list(UNIT) + [rng.choice(UNKNOWN)])
    prefix = rng.choice([None, 'pre', 'T24', 'a_long_prefix_name'])
    opts = dict(scaleFactor=scale, offset=off, validMin=vmin, validMax=vmax, valueFormat=fmt, outputStepUnits=unit, namePrefix=prefix)
    flags = dict(scaleFactor='-S', offset='-O', validMin='-vm', validMax='-vM', valueFormat='-vf', outputStepUnits='-U', namePrefix='-n')
    out, args = ({'@unitTime': A} if kind else {}), []
    for k, v in opts.items():
        if v is None:
            continue
        if rng.random() < .5 or 'e' in str(v) and not isinstance(v, str):
            out['@' + k] = v if rng.random() < .6 else str(v)
        else:
            args += [flags[k], v]
    r = sc.execute(w, p, tgt, short, 'nearest', agg=agg, out=out, args=args, fmt='netcdf', json_fmt=rng.random() < .3)
    o.case = dict(grid=g.key(), opts=opts, kind=kind, steps=steps, nc=nc, hour=hour, range=(a, b), shape=tgt.shape)
    what = f'{opts} {kind} steps {steps} nc {nc} values in [{a:.6g}, {b:.6g}]'
    if not o.check(r.ok and r.raw is not None, 'nc-run', lambda: f'{what}: {r.res.brief()}'):
        return
    d = r.raw
    files = sorted(os.listdir(w.path('out')))
    pre = prefix or short
    o.check(len(files) == 1 and files[0].startswith(pre) and files[0].endswith('.nc'), 'nc-file', lambda: f'{what}: files {files}')
    o.check(d['vars'] == [pre], 'nc-variable', lambda: f'{what}: variables {d["vars"]}')
    o.check(d['dims'] == ('time', 'lat', 'lon') and d['unlimited'], 'nc-dims', lambda: f'{what}: {d["dims"]}')
    o.check(d['dtype'] == (fmt or 'f8'), 'nc-dtype', lambda: f'{what}: {d["dtype"]}')
    o.check(d['values'].shape == (len(want),) + tgt.shape if want else d['values'].shape[1:] == tgt.shape, 'nc-shape', lambda: f'{what}: {d["values"].shape}')
    # axes
    tol = 0 if nc else 1e-4
    o.check(np.allclose(d['lat'], tgt.lats[:, 0], rtol=0, atol=tol) and np.allclose(d['lon'], tgt.lons[0], rtol=0, atol=tol), 'nc-coordinates',
            lambda: f'{what}: lat {d["lat"]} lon {d["lon"]}, map rows {tgt.lats[:, 0]} columns {tgt.lons[0]}')
    # units that hours cannot be converted to leave hours
    if unit in UNKNOWN:
        unit = None
        o.count('unknown_units')
    u = unit or 'h'
    m = re.match(r'(.+) since (\d{4})-(\d\d)-(\d\d)[ T](\d\d):(\d\d)', d['time_units'])
    if o.check(bool(m) and m.group(1) == NAMES[u], 'nc-time-units', lambda: f'{what}: {d["time_units"]}'):
        t0 = datetime.datetime(*[int(m.group(k)) for k in range(2, 7)])
        ref = datetime.datetime(date // 10000, date // 100 % 100, date % 100, hour // 100, hour % 100)
        o.check(t0 == ref, 'nc-time-origin', lambda: f'{what}: {d["time_units"]}, data date and time {ref}')
    if want is not None:
        tw = np.array([s / UNIT[u] for s, _ in want])
        o.check(d['time'].shape == tw.shape and np.allclose(d['time'], tw, rtol=1e-6, atol=0), 'nc-time', lambda: f'{what}: time {d["time"]}, expected {tw}')
    if unit not in (None, 'h'):
        o.count('converted_units')
    if hour:
        o.count('noon_runs')
    at = d['attrs']
    o.check(at.get('scale_factor', 1.) == S and at.get('add_offset', 0.) == O, 'nc-packing', lambda: f'{what}: {at}')
    o.check(at['units'] == {'2t': 'K', 'tp': 'm', 'sd': 'm'}.get(short, at['units']), 'nc-units', lambda: f'{what}: {at["units"]}')
    o.check(str(at['_FillValue']) == str(at.get('missing_value')), 'nc-fill', lambda: f'{what}: {at}')
    if want is None:
        return
    for k, (s, flat) in enumerate(want):
        e = sc.on_target(tgt, flat)
        got = d['values'][k]
        # precision of the packed number
        if fmt in INT:
            q = .5001 * S
        else:
            q = (6e-8 if fmt == 'f4' else 2e-16) * (np.nanmax(np.abs(flat)) + abs(O) + max(abs(a), abs(b))) * 4 if np.isfinite(flat).any() else 0
        q += 1e-9 * max(abs(a), abs(b))
        low = np.full(e.shape, False) if vmin is None else e < vmin - q
        high = np.full(e.shape, False) if vmax is None else e > vmax + q
        near = np.full(e.shape, False)
        for lim in (vmin, vmax):
            if lim is not None:
                near |= np.abs(e - lim) <= q + (S if fmt in INT else 0)
        inv = (low | high)
        exp = np.where(inv, np.nan, e)
        chk = ~near
        gm, em = np.isnan(got), np.isnan(exp)
        o.check((gm == em)[chk].all(), 'nc-missing' if not inv.any() else 'nc-valid-range',
                lambda: f'{what}: step {s}: missing cells differ: {sc.diff(np.where(chk, got, 0), np.where(chk, exp, 0))}')
        both = chk & ~gm & ~em
        o.check(np.abs(got[both] - e[both]).max(initial=0) <= q, 'nc-value', lambda: f'{what}: step {s}: {sc.diff(np.where(both, got, 0), np.where(both, e, 0))}, precision {q:.3g}')
        # what is stored for missing cells is the fill value itself
        raw = d['raw'][k]
        o.check((raw[em & chk] == at['_FillValue']).all() and not (raw[~em & chk] == at['_FillValue']).any(), 'nc-fill-stored', lambda: f'{what}: stored under missing {np.unique(raw[em & chk])[:5]}, fill {at["_FillValue"]}')
        o.count('maps')
        o.count('missing_cells', int(em.sum()))
        o.count('invalid_cells', int(inv.sum()))
        o.count('clone_cells', int(tgt.clone_missing.sum()))
        if S != 1 or O:
            o.count('packed_maps')
        if vmin is not None or vmax is not None:
            o.count('valid_range_maps')
    if nc:
        o.count('nc_targets')
    o.sig(fmt, S != 1, O != 0, vmin is None, vmax is None, wild, unit, nc, kind, tgt.clone_missing.any(), bool(hour))
