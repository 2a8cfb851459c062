"""C09 angular distance weighting (Shepard) and its CDD variants."""
import os

import numpy as np
import gen
import scene as sc
import interp as ip

QUICK, THOROUGH, WORKERS = 120, 3000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 120
RULE = ('distinct (mode, CDD mode, options, source geometry, edition, target kind, broadcasting, splits) combinations in which every decided cell of random fields was compared with '
        'an independent evaluation of the formulas')
REQUIRE = {'cells_adw': 1200, 'cells_on_node': 60, 'variants': 100, 'cells_NewEtAl': 400, 'cells_Hofstra': 400, 'cells_MixHofstraShepard': 900, 'cells_without_points': 60}
ASSUMPTIONS = ['a cell closer than the rounding of the maps to a switch of the formulas (radius limits, eleventh and twelfth neighbour at the same distance) is skipped',
               'a cell on a grid point is decided for adw (the value of the point) but not for cdd, where the direction to the point is undefined',
               'NewEtAl is decided for CDD maps with one value, because the place of a station in the map is not specified']


def shepard_s(d, rref):
    r = d[:, 10].copy()
    a = d[:, 3] > rref
    r[a] = d[a, 4]
    b = ~a & (d[:, 9] > rref)
    r[b] = rref
    r = r[:, None]
    with np.errstate(all='ignore'):
        s = np.where(d <= r / 3, 1. / d, np.where(d <= r, 27. / (4. * r) * (d / r - 1) ** 2, 0.))
    return s, [r[:, 0] / 3 * np.ones(d.shape[0])], (d[:, 3] - rref, d[:, 9] - rref)


def mix_s(d, cdd, m, nmin, ratio):
    r = d[:, 10].copy()
    a = d[:, nmin - 1] > cdd
    r[a] = d[a, nmin]
    b = ~a & (d[:, 9] > cdd)
    r[b] = cdd[b]
    r = r[:, None]
    return np.where(d <= r * ratio, np.exp(-m * d / r), np.where(d <= r, np.exp(-m * ratio) / (ratio - 1) ** 2 * (d / r - 1) ** 2, 0.)), (d[:, nmin - 1] - cdd, d[:, 9] - cdd)


def directional(s, tl, tn, sl, sn):
    """sum over the others of (1 - cos of the angle at the cell) s, over the sum of s; 1 where the others have no weight"""
    x = tl[:, None] - sl
    y = (tn[:, None] - sn + 180.) % 360. - 180.
    dd = np.hypot(x, y)
    with np.errstate(all='ignore'):
        cos = (x[:, :, None] * x[:, None, :] + y[:, :, None] * y[:, None, :]) / (dd[:, :, None] * dd[:, None, :])
        k = s.shape[1]
        off = ~np.eye(k, dtype=bool)
        num = ((1 - cos) * s[:, None, :] * off).sum(2)
        den = (s[:, None, :] * off).sum(2)
        t = np.where(den > 0, num / den, 1.)
    return np.where(np.isnan(t), 1., t)


def run(w, rng, o, i):
    mode = rng.choice(['adw', 'cdd', 'cdd'])
    while True:
        kind, src = ip.pick_source(rng, ('regional', 'regional', 'dateline', 'zero', 'south', 'rotated', 'global', 'gauss'), big=14)
        if src.n >= 13:
            break
    tgt = ip.make_target(w, rng, w.np, src, nmax=9, p_nc=.6, outside=.1, any_lon=.2)
    nc = tgt.lat.endswith('.nc')
    interp, what, var = {}, None, {}
    if mode == 'cdd':
        what = rng.choice(['Hofstra', 'MixHofstraShepard', 'MixHofstraShepard', 'NewEtAl'])
        scale = 111. * (3. if kind == 'gauss' else max(src.grid.dlat, src.grid.dlon)) if kind != 'global' else 1200.
        vals = scale * w.np.choice([.8, 1.5, 2.5, 4.], tgt.shape) * w.np.uniform(.9, 1.1, tgt.shape)
        if what == 'NewEtAl':
            vals[:] = scale * 2.2
        if nc:
            p = gen.write_nc_map(w.path('cdd.nc'), tgt.lats[:, 0], tgt.lons[0], vals, var='cdd')
        else:
            p = gen.write_pcr(w.path('cdd.map'), vals)
            vals = vals.astype(np.float32).astype(float)
        if rng.random() < .4:
            # the folder is a path variable
            d, f = os.path.split(p)
            var = {'CDD_MAPS': d}
            p = '{CDD_MAPS}/' + f
        interp = {'@cdd_map': p, '@cdd_mode': what}
    opts = dict(m_const=4, min_num_of_station=4, radius_ratio=1 / 3, weights_mode='All')
    custom = what == 'MixHofstraShepard' and rng.random() < .7
    if custom:
        opts = dict(m_const=rng.choice([4, 2, 6]), min_num_of_station=rng.choice([4, 3, 5]), radius_ratio=rng.choice([1 / 3, .5, .25]), weights_mode=rng.choice(['All', 'OnlyTOP10']))
        keys = list(opts)
        if rng.random() < .5:
            rng.shuffle(keys)
        interp['@cdd_options'] = {k: opts[k] for k in keys}
    variants = [dict(interp)]
    v = dict(interp)
    if rng.random() < .6:
        v['@use_broadcasting'] = True
    if rng.random() < .6 or len(v) == len(interp):
        v['@num_of_splits'] = rng.choice([1, 2, 3, tgt.shape[0], tgt.shape[0] + 3])
    variants.append(v)
    flds = [sc.field(w.np, src.n, 0, 100) for _ in range(2)]
    p = gen.write_grib(w.path('in.grb'), [gen.message(src.grid, '2t', (k, k), None, f) for k, f in enumerate(flds)])
    decs = gen.decode(p)
    z = np.stack([x['values'] for x in decs], 1)
    lats, lons, radius = decs[0]['lats'], decs[0]['lons'], decs[0]['radius']
    tl, tn = tgt.lats.ravel(), tgt.lons.ravel()
    d_all = ip.distances(tl, tn, lats, lons, radius)
    ix = np.argsort(d_all, 1, kind='stable')[:, :12]
    d12 = np.take_along_axis(d_all, ix, 1)
    d, ix11 = d12[:, :11], ix[:, :11]
    tol = (1e-4 if nc else 8.)
    skip = d12[:, 11] - d12[:, 10] < tol
    missing = np.zeros(tl.size, bool)
    if mode == 'adw':
        rref = d[:, 6].mean()
        s, _, edges = shepard_s(d, rref)
        wgt = s ** 2
        for e in edges:
            skip |= np.abs(e) < 3 * tol
    else:
        cdd = vals.ravel() * 1000.
        if what == 'MixHofstraShepard':
            s, edges = mix_s(d, cdd, opts['m_const'], opts['min_num_of_station'], opts['radius_ratio'])
            for e in edges:
                skip |= np.abs(e) < 3 * tol + 1e-6 * cdd
            if opts['weights_mode'] == 'OnlyTOP10':
                so = np.sort(s, 1)
                low = np.argmin(s, 1)
                s[np.arange(s.shape[0]), low] = 0
                skip |= (so[:, 1] - so[:, 0] < 1e-4) & (so[:, 1] > 0)
        else:
            c = cdd[:, None]
            s = np.where(d <= c, np.exp(-4. * d / c), 0.)
            skip |= (np.abs(d - c) < 3 * tol + 1e-6 * c).any(1)
            if what == 'Hofstra':
                missing = d[:, 2] > cdd
                s[missing] = 0
            else:
                missing = s.sum(1) == 0
        wgt = s.copy()
    t = directional(s, tl, tn, lats[ix11], lons[ix11])
    if mode == 'cdd':
        t = t / t.sum(1, keepdims=True)
    with np.errstate(all='ignore'):
        wgt = wgt * (1 + t)
        wgt = wgt / wgt.sum(1, keepdims=True)
    node = d[:, 0] < tol
    if mode == 'adw':
        wgt[node] = 0
        wgt[node, 0] = 1
        # next to a point the direction to it is lost in rounding, but its weight is close to one
        skip |= ~node & (d[:, 0] < 50 * tol)
    else:
        skip |= d[:, 0] < 50 * tol
    want = np.einsum('ij,ijk->ik', np.nan_to_num(wgt), z[ix11])
    o.case = dict(mode=mode, what=what, kind=kind, grid=src.grid.key(), shape=tgt.shape, nc=nc, variants=variants)
    cl = tgt.clone_missing.ravel()
    res = []
    good = True
    for k, iv in enumerate(variants):
        w.reset_home()
        w.write_conf(var, 'cdd.conf')
        r = sc.execute(w, p, tgt, '2t', mode, None, None, None, iv, 'netcdf', outdir=f'out{k}')
        if not o.check(r.ok and len(r.frames) == 2, 'adw-run', f'{mode} {what} {iv} on {kind} {tgt.shape}: {r.res.brief()}'):
            good = False
            continue
        got = np.stack([f.ravel() for _, f in r.frames], 1)
        res.append((iv, got))
        rt = 2e-6 if nc else 2e-3
        for c in np.flatnonzero(~cl & ~skip):
            if missing[c]:
                good &= o.check(np.isnan(got[c]).all(), 'adw-radius', f'{mode} {what} on {kind}: cell {c} has too few points within its radius and holds {got[c]}')
                o.count('cells_without_points')
                continue
            e = np.abs(got[c] - want[c]).max()
            good &= o.check(e <= rt * 100, 'adw-value', lambda: f'{mode} {what} {iv} on {kind} {src.grid.key()}: cell {c} of {tgt.shape} at {tl[c]:.4f} {tn[c]:.4f}: got {got[c]} want {want[c]} '
                            f'weights {np.round(wgt[c], 4)} distances {np.round(d[c])}')
            o.count('cells_' + (what or 'adw'))
            if node[c]:
                o.count('cells_on_node')
    if len(res) == 2:
        a, b = res[0][1], res[1][1]
        ok = ((np.abs(a - b) < (1e-7 if nc else 2e-2)) | (np.isnan(a) & np.isnan(b))) | (skip[:, None] & (not nc))
        good &= o.check(ok.all(), 'adw-variants', lambda: f'{mode} {what} on {kind}: {variants[1]} differs from {variants[0]} in {int((~ok).sum())} cells, {a[~ok][:3]} {b[~ok][:3]}')
        o.count('variants')
    if good:
        o.sig(mode, what, custom, opts['weights_mode'], kind, src.grid.edition, nc, '@use_broadcasting' in variants[1], '@num_of_splits' in variants[1])
