"""C07 nearest neighbour."""
import numpy as np
import gen
import scene as sc
import interp as ip

QUICK, THOROUGH, WORKERS = 640, 5000, 8
LEVEL = 'exploration'
RULE = ('distinct (source geometry, edition, mode, target format, output format, missing source cells, cells found beyond the limit) combinations in which '
        'every decided cell was compared with a brute force search over all grid points')
REQUIRE = {'cells_decided': 4000, 'cells_beyond': 300, 'cells_on_node': 200, 'grib_cells': 300, 'nc_targets': 40, 'rotated_targets': 4, 'missing_from_source': 150}
ASSUMPTIONS = ['cells whose two nearest grid points are equally far within the precision of the maps accept either',
               'grid_nearest is decided on grids whose meridians grow within [0, 360), where the ecCodes search itself is defined']


def run(w, rng, o, i):
    mode = 'grib_nearest' if rng.random() < .35 else 'nearest'
    kinds = ('regional', 'south', 'gauss') if mode == 'grib_nearest' else ('regional', 'regional', 'global', 'polar', 'dateline', 'zero', 'south', 'rotated', 'rotated', 'gauss')
    kind, src = ip.pick_source(rng, kinds)
    while mode == 'grib_nearest' and src.grid.kind == 'regular_ll' and not sc.grib_ok(src):
        kind, src = ip.pick_source(rng, kinds)
    nmsg = rng.choice([1, 2, 3])
    masks = [sc.random_mask(rng, w.np, src.n) for _ in range(nmsg)]
    msgs = [gen.message(src.grid, '2t', (6 * k, 6 * k), None, sc.field(w.np, src.n, 200, 300), mask=masks[k]) for k in range(nmsg)]
    p = gen.write_grib(w.path('in.grb'), msgs)
    dec = gen.decode(p)
    r, nj = dec[0]['radius'], dec[0]['Nj']
    tgt = ip.make_target(w, rng, w.np, src)
    interp = None
    if src.grid.kind.startswith('rotated') and not tgt.lat.endswith('.nc') and rng.random() < .5:
        # maps of the coordinates of the rotated grid
        tgt, interp = ip.rotated_target(w, rng, tgt, src.grid.south_pole), {'@rotated_target': True}
        o.count('rotated_targets')
    fmt = 'netcdf' if tgt.lat.endswith('.nc') else rng.choice(['netcdf', 'pcraster'])
    o.case = dict(kind=kind, grid=src.grid.key(), mode=mode, fmt=fmt, rotated_target=bool(interp), shape=tgt.shape, nc=tgt.lat.endswith('.nc'))
    run_ = sc.execute(w, p, tgt, '2t', mode, None, None, None, interp, fmt)
    o.check(run_.ok, 'nearest-run', run_.res.brief())
    if not run_.ok:
        return
    if not o.check(len(run_.frames) == nmsg, 'nearest-count', f'{len(run_.frames)} maps for {nmsg} messages'):
        return
    lats, lons = dec[0]['lats'], dec[0]['lons']
    d = ip.distances(tgt.lats, tgt.lons, lats, lons, r)
    cl = ~tgt.clone_missing.ravel()
    dm = d.min(1)
    bound = np.inf
    if mode == 'nearest':
        bound = ip.spacing_bound(src, r, nj)
    tol = tgt.delta
    tlat = tgt.lats.ravel()
    if mode == 'grib_nearest':
        # the GRIB library decides what lies in its area; inside the box of the grid it has to answer
        if src.grid.kind == 'regular_ll':
            inside, outside = ip.bounded_box(src, tgt.lats, tgt.lons, 1e-3)
            inside, outside = inside.ravel(), outside.ravel()
        else:
            inside, outside = np.abs(tlat) < 70, np.zeros(tlat.size, bool)
        inside &= np.abs(tlat) < 75
    else:
        inside, outside = dm < bound - tol - 1e-9 * bound, dm > bound + tol + 1e-9 * bound
    good = True
    for f, (step, got) in enumerate(run_.frames):
        got = got.ravel()
        src_v = dec[f]['values']
        for c in np.flatnonzero(cl):
            if outside[c]:
                if mode == 'nearest':
                    good &= o.check(np.isnan(got[c]), 'nearest-beyond',
                                    lambda: f'cell {c} at {dm[c]:.0f} m from the nearest grid point (limit {bound:.0f}) holds {got[c]}')
                    o.count('cells_beyond')
                continue
            if not inside[c]:
                o.count('cells_undecided')
                continue
            cand = np.flatnonzero(d[c] <= dm[c] + 2 * tol)
            if cand.size > 4:
                o.count('cells_undecided')
                continue
            vs = src_v[cand]
            at = 1e-9 if fmt == 'netcdf' else 1e-4
            ok = any((np.isnan(v) and np.isnan(got[c])) or (not np.isnan(v) and not np.isnan(got[c]) and abs(v - got[c]) <= at * (1 + abs(v) * 1e-2)) for v in vs)
            good &= o.check(ok, 'nearest-value', lambda: f'{mode} on {kind}: cell {c} (lat {tgt.lats.ravel()[c]:.4f} lon {tgt.lons.ravel()[c]:.4f}) '
                            f'got {got[c]}, nearest grid point at {dm[c]:.1f} m holds {vs}')
            o.count('cells_decided')
            o.count('grib_cells', mode == 'grib_nearest')
            o.count('cells_on_node', dm[c] < 10)
            o.count('missing_from_source', bool(np.isnan(vs).all()))
        good &= o.check(np.isnan(got[~cl]).all(), 'nearest-clone', 'cells outside the clone hold data')
    o.count('nc_targets', tgt.lat.endswith('.nc'))
    if good:
        o.sig(kind, src.grid.kind, src.grid.edition, mode, tgt.lat.endswith('.nc'), fmt, any(m is not None for m in masks), bool((outside & cl).any()))
        o.sample(dict(kind=kind, mode=mode, shape=tgt.shape, fmt=fmt, limit_m=float(bound) if np.isfinite(bound) else None))
