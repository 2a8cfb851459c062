"""C06 missing data stays missing and nothing else becomes missing, through every interpolation mode."""
import numpy as np
import gen
import scene as sc
import interp as ip
import weights as wt

QUICK, THOROUGH, WORKERS = 320, 3000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 400
RULE = ('distinct (mode, source geometry, edition, output format, manipulation, target kind, missing target coordinates, cells outside) combinations in which the missing cells of '
        'every map were compared with the grid points the interpolation uses, read out beforehand with unit fields')
REQUIRE = {'cells_must_be_missing': 2000, 'cells_must_be_present': 1500, 'coord_missing_cells': 250, 'clone_missing_cells': 500, 'unit_maps': 8000}
ASSUMPTIONS = ['a grid point that the operator uses with weight exactly zero, or one among the twelve closest of a cell, may make the cell missing or not (bilinear on a grid line: any point)']
MODES = ['nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist']


def cdd_interp(w, rng, tgt, lo=200., hi=2500.):
    shape = tgt.shape
    vals = lo + (hi - lo) * w.np.rand(*shape)
    if tgt.lat.endswith('.nc'):
        p = gen.write_nc_map(w.path('cdd.nc'), tgt.lats[:, 0], tgt.lons[0], vals, var='cdd')
    else:
        p = gen.write_pcr(w.path('cdd.map'), vals)
    mode = rng.choice(['Hofstra', 'MixHofstraShepard', 'MixHofstraShepard'])
    d = {'@cdd_map': p, '@cdd_mode': mode}
    if mode == 'MixHofstraShepard' and rng.random() < .6:
        d['@cdd_options'] = {'m_const': rng.choice([4, 2, 6]), 'min_num_of_station': rng.choice([4, 3]), 'radius_ratio': rng.choice([1 / 3, .5]),
                             'weights_mode': rng.choice(['All', 'OnlyTOP10'])}
    return d, vals


def small_source(rng, mode):
    while True:
        kinds = ('regional', 'south') if mode.startswith('grib') else ('regional', 'regional', 'dateline', 'zero', 'south', 'rotated')
        kind, src = ip.pick_source(rng, kinds, big=8)
        if src.n <= 64 and (not mode.startswith('grib') or sc.grib_ok(src)):
            return kind, src


def run(w, rng, o, i):
    mode = MODES[i % len(MODES)] if rng.random() < .8 else rng.choice(MODES)
    kind, src = small_source(rng, mode)
    tgt = ip.make_target(w, rng, w.np, src, nmax=7)
    cmiss = np.zeros(tgt.shape, bool)
    if not tgt.lat.endswith('.nc') and rng.random() < .6:
        cmiss = w.np.rand(*tgt.shape) < .2
        cmiss[0, 0] = False
        tgt = sc.target_maps(w, tgt.lats, tgt.lons, tgt.clone_missing, cmiss)
        tgt.delta = 6.
    interp = None
    if mode == 'cdd':
        interp, _ = cdd_interp(w, rng, tgt)
    o.case = dict(mode=mode, kind=kind, grid=src.grid.key(), shape=tgt.shape, interp=interp, nc=tgt.lat.endswith('.nc'), coord_missing=int(cmiss.sum()))
    W, r0, _ = wt.extract(w, src, tgt, mode, interp)
    o.check(r0.ok and W is not None, 'missing-run', f'{mode} on {kind}: {r0.res.brief()} {len(r0.frames)} maps')
    if W is None:
        return
    o.count('unit_maps', src.n)
    cl, cm = tgt.clone_missing.ravel(), cmiss.ravel()
    nanrow = np.isnan(W).any(1)
    good = o.check((nanrow == np.isnan(W).all(1)).all(), 'missing-by-value', f'{mode} on {kind}: a cell is missing for some values of the field only')
    good &= o.check(nanrow[cl].all(), 'missing-clone', f'{mode} on {kind}: {int((~nanrow[cl]).sum())} cells outside the clone hold data')
    good &= o.check(nanrow[cm].all(), 'missing-coordinates', lambda: f'{mode} on {kind}: {int((~nanrow[cm]).sum())} of {int(cm.sum())} cells without coordinates hold data')
    o.count('clone_missing_cells', int(cl.sum()))
    o.count('coord_missing_cells', int(cm.sum()))
    # masked fields, with a table of their own (built while a masked field is interpolated) or with the stored one
    own = rng.random() < .6
    if own:
        w.reset_home()
    nmsg = rng.choice([2, 3, 4])
    agg, manip = None, rng.choice([None, None, 'average'])
    if manip:
        agg = sc.agg_conf(6, 'average', half=False)
    steps = [6 * k for k in range(nmsg)]
    masks = [sc.random_mask(rng, w.np, src.n, 1 + rng.randrange(2)) for _ in steps]
    if rng.random() < .5:
        # a few missing points only
        masks = [np.isin(np.arange(src.n), w.np.choice(src.n, 2, replace=False)) for _ in steps]
    msgs = [gen.message(src.grid, '2t', (s, s), None, sc.field(w.np, src.n, 200, 300), mask=m) for s, m in zip(steps, masks)]
    p = gen.write_grib(w.path('in.grb'), msgs)
    fmt = rng.choice(['netcdf', 'pcraster']) if not tgt.lat.endswith('.nc') else 'netcdf'
    r1 = sc.execute(w, p, tgt, '2t', mode, agg, None, None, interp, fmt, create=True)
    o.check(r1.ok, 'missing-run', f'{mode} on {kind} with masks: {r1.res.brief()}')
    if not r1.ok:
        return
    dec = {d['end']: d['values'] for d in gen.decode(p)}
    if manip:
        # hour h takes the next stored step: the map of hours (A-6, A] is the step A itself
        want = [dec[s] for s in steps[1:]]
    else:
        want = [dec[s] for s in steps]
    good &= o.check(len(r1.frames) == len(want), 'missing-count', f'{len(r1.frames)} maps, expected {len(want)}')
    if len(r1.frames) != len(want):
        return
    d = ip.distances(tgt.lats, tgt.lons, src.lats, src.lons, 6371229.)
    near = d <= np.sort(d, 1)[:, [min(11, src.n - 1)]] + 2 * tgt.delta
    out_cells = 0
    for f, z in enumerate(want):
        got = r1.frames[f][1].ravel()
        m = np.isnan(z)
        zz = np.where(m, 0., z)
        for c in range(got.size):
            if nanrow[c]:
                good &= o.check(np.isnan(got[c]), 'missing-lost', f'{mode} on {kind}: cell {c} is missing for clean fields and holds {got[c]} with missing grid points')
                out_cells += not (cl[c] or cm[c])
                continue
            used = W[c] != 0
            if (m & (np.abs(W[c]) > 1e-9)).any():
                good &= o.check(np.isnan(got[c]), 'missing-hidden', lambda: f'{mode} on {kind} ({fmt}, own table {own}): cell {c} uses a missing grid point (weights '
                                f'{W[c][used]}, missing {m[used]}) but holds {got[c]}')
                o.count('cells_must_be_missing')
                continue
            if not (m & (near[c] | used)).any() and not (mode == 'bilinear' and used.sum() < 4):
                good &= o.check(not np.isnan(got[c]), 'missing-added', lambda: f'{mode} on {kind} ({fmt}, own table {own}): cell {c} uses only present grid points but is missing; '
                                f'missing ones {np.flatnonzero(m)[:10]} used {np.flatnonzero(used)}')
                o.count('cells_must_be_present')
            if not np.isnan(got[c]):
                v = float((W[c] * zz).sum())
                at = 1e-7 if fmt == 'netcdf' else 1e-4
                good &= o.check(abs(got[c] - v) <= at, 'missing-value', lambda: f'{mode} on {kind} ({fmt}, own table {own}): cell {c} got {got[c]}, the operator gives {v}')
                o.count('cells_compared')
    if good:
        o.sig(mode, kind, src.grid.edition, fmt, manip, tgt.lat.endswith('.nc'), bool(cm.any()), out_cells > 0, own)
        o.sample(dict(mode=mode, kind=kind, shape=tgt.shape, fmt=fmt, manip=manip))
