"""C08 inverse distance weighting."""
import numpy as np
import gen
import scene as sc
import interp as ip

QUICK, THOROUGH, WORKERS = 640, 5000, 8
LEVEL = 'exploration'
RULE = ('distinct (source geometry, edition, mode, target format, output format, missing source cells, cells beyond the limit) combinations in which every '
        'decided cell was compared with a brute force weighted mean')
REQUIRE = {'cells_decided': 4000, 'cells_beyond': 300, 'cells_on_node': 150, 'grib_cells': 500, 'nc_targets': 40, 'rotated_targets': 4, 'missing_from_source': 150, 'table_reused': 60}
ASSUMPTIONS = ['cells whose fourth and fifth neighbours are equally far within the precision of the maps, or (GRIB search) lie on a grid line, are skipped',
               'at a cell exactly on a grid point only the value of that point is decided, not the effect of missing neighbours of weight zero (invdist)']


def grib_corners(src, lats, lons, lat, lon):
    """indexes of the four grid points of the cell around a point: rows above and below, meridians left and right (wrapping on global rows)"""
    rows = np.unique(np.round(lats, 6))[::-1]
    g = src.grid
    k = np.searchsorted(-rows, -lat)
    if k == 0 or k >= rows.size:
        return None
    out = []
    lon = lon % 360.
    for r in (rows[k - 1], rows[k]):
        ix = np.flatnonzero(np.abs(lats - r) < 1e-5)
        L = lons[ix] % 360.
        od = np.argsort(L)
        L, ix = L[od], ix[od]
        m = np.searchsorted(L, lon)
        if g.kind.endswith('gg'):
            a, b = (m - 1) % L.size, m % L.size
        else:
            if m == 0 or m >= L.size:
                return None
            a, b = m - 1, m
        for q in (a, b):
            out.append(ix[q])
            if min(abs(L[q] - lon), 360 - abs(L[q] - lon)) < 2e-4:
                return None
    if abs(rows[k - 1] - lat) < 2e-4 or abs(rows[k] - lat) < 2e-4:
        return None
    return np.array(out)


def around(src, lats, lons, la, lo, d):
    """grid points that can be one of the four eccodes takes for a cell close to a grid point"""
    ix = list(np.argsort(d)[:12])
    if not src.grid.kind.startswith('rotated'):
        rows = np.unique(lats)
        for r in rows[np.argsort(abs(rows - la))[:3]]:
            row = np.flatnonzero(lats == r)
            ix += list(row[np.argsort(abs((lons[row] - lo + 180) % 360 - 180))[:3]])
    return ix


def run(w, rng, o, i):
    mode = 'grib_invdist' if rng.random() < .35 else 'invdist'
    kinds = ('regional', 'south', 'gauss') if mode == 'grib_invdist' else ('regional', 'regional', 'global', 'polar', 'dateline', 'zero', 'south', 'rotated', 'rotated', 'gauss')
    kind, src = ip.pick_source(rng, kinds)
    while mode == 'grib_invdist' and src.grid.kind == 'regular_ll' and not sc.grib_ok(src):
        kind, src = ip.pick_source(rng, kinds)
    nmsg = rng.choice([1, 2, 3])
    masks = [sc.random_mask(rng, w.np, src.n) for _ in range(nmsg)]
    msgs = [gen.message(src.grid, '2t', (6 * k, 6 * k), None, sc.field(w.np, src.n, 200, 300), mask=masks[k]) for k in range(nmsg)]
    p = gen.write_grib(w.path('in.grb'), msgs)
    dec = gen.decode(p)
    r, nj = dec[0]['radius'], dec[0]['Nj']
    tgt = ip.make_target(w, rng, w.np, src)
    interp = None
    if src.grid.kind.startswith('rotated') and not tgt.lat.endswith('.nc') and rng.random() < .5:
        # maps of the coordinates of the rotated grid
        tgt, interp = ip.rotated_target(w, rng, tgt, src.grid.south_pole), {'@rotated_target': True}
        o.count('rotated_targets')
    fmt = 'netcdf' if tgt.lat.endswith('.nc') else rng.choice(['netcdf', 'pcraster'])
    o.case = dict(kind=kind, grid=src.grid.key(), mode=mode, fmt=fmt, rotated_target=bool(interp), shape=tgt.shape, nc=tgt.lat.endswith('.nc'))
    run_ = sc.execute(w, p, tgt, '2t', mode, None, None, None, interp, fmt)
    o.check(run_.ok, 'invdist-run', run_.res.brief())
    if not run_.ok:
        return
    if not o.check(len(run_.frames) == nmsg, 'invdist-count', f'{len(run_.frames)} maps for {nmsg} messages'):
        return
    lats, lons = dec[0]['lats'], dec[0]['lons']
    d = ip.distances(tgt.lats, tgt.lons, lats, lons, r)
    cl = ~tgt.clone_missing.ravel()
    dm = d.min(1)
    tol = tgt.delta
    tl, tn = tgt.lats.ravel(), tgt.lons.ravel()
    power = 2
    if mode == 'invdist':
        bound = ip.spacing_bound(src, r, nj)
        inside, outside = dm < bound - tol - 1e-9 * bound, dm > bound + tol + 1e-9 * bound
        order = np.argsort(d, axis=1)[:, :5]
        ds = np.take_along_axis(d, order, 1)
        decided = inside & (ds[:, 4] - ds[:, 3] > 2 * tol)
        decided |= dm < tol
        nb, nd = order[:, :4], ds[:, :4]
    else:
        power = 1
        if src.grid.kind == 'regular_ll':
            inside, outside = ip.bounded_box(src, tgt.lats, tgt.lons, 1e-3)
            inside, outside = inside.ravel(), outside.ravel()
        else:
            inside, outside = np.abs(tl) < 84, np.zeros(tl.size, bool)
        nb, nd = np.zeros((tl.size, 4), int), np.zeros((tl.size, 4))
        decided = np.zeros(tl.size, bool)
        for c in range(tl.size):
            if dm[c] < tol:
                # on a grid point
                nb[c], nd[c] = d[c].argmin(), [0, 1e9, 1e9, 1e9]
                decided[c] = bool(inside[c])
                continue
            if not inside[c]:
                continue
            ix = grib_corners(src, lats, lons, tl[c], tn[c])
            if ix is not None:
                nb[c] = ix
                # great circle from the chord
                nd[c] = 2 * r * np.arcsin(d[c, ix] / 2 / r)
                decided[c] = True
    good = True
    for f, (step, got) in enumerate(run_.frames):
        got = got.ravel()
        z = dec[f]['values']
        for c in np.flatnonzero(cl):
            if mode == 'invdist' and outside[c]:
                good &= o.check(np.isnan(got[c]), 'invdist-beyond', lambda: f'cell {c} at {dm[c]:.0f} m from the nearest grid point (limit {bound:.0f}) holds {got[c]}')
                o.count('cells_beyond')
                continue
            if not decided[c]:
                o.count('cells_undecided')
                continue
            if dm[c] < tol:
                # on a node: its own value; a missing neighbour may or may not count
                v = z[d[c].argmin()]
                if np.isnan(v):
                    ok = np.isnan(got[c])
                else:
                    k = d[c].argmin()
                    exact = tl[c] == lats[k] and tn[c] % 360. == lons[k] % 360.
                    o.count('grib_exact', exact and mode == 'grib_invdist')
                    vague = mode == 'grib_invdist' and not exact and np.isnan(got[c]) and np.isnan(z[around(src, lats, lons, tl[c], tn[c], d[c])]).any()
                    ok = vague or (mode == 'invdist' and np.isnan(got[c]) and np.isnan(z[d[c] <= ds[c, 3] + 2 * tol]).any()) or abs(got[c] - v) < 1e-3
                good &= o.check(ok, 'invdist-node', lambda: f'{mode} on {kind}: cell {c} sits on a grid point with {v}, got {got[c]}; neighbours {z[nb[c]]}')
                o.count('cells_on_node')
                continue
            zz = z[nb[c]]
            if np.isnan(zz).any():
                good &= o.check(np.isnan(got[c]), 'invdist-missing', lambda: f'{mode} on {kind}: cell {c} uses missing grid points {zz} but holds {got[c]}')
                o.count('missing_from_source')
                continue
            wt = 1. / nd[c] ** power
            wt /= wt.sum()
            want = float((wt * zz).sum())
            t = float((wt * np.minimum(1., 2 * power * tol / nd[c]) * np.abs(zz - want)).sum()) + (1e-6 if fmt == 'netcdf' else 1e-4)
            # coordinates of PCRaster maps are float32, and so are the weights made of them
            t += 2.5e-7 * float(np.abs(zz).max())
            if mode == 'grib_invdist':
                t += 2e-5 * float(np.ptp(zz))
            ok = not np.isnan(got[c]) and abs(got[c] - want) <= t
            good &= o.check(ok, 'invdist-value', lambda: f'{mode} on {kind}: cell {c} (lat {tl[c]:.4f} lon {tn[c]:.4f}) got {got[c]} want {want} +- {t:.2g}; '
                            f'distances {nd[c]} values {zz}')
            o.count('cells_decided')
            o.count('grib_cells', mode == 'grib_invdist')
        good &= o.check(np.isnan(got[~cl]).all(), 'invdist-clone', 'cells outside the clone hold data')
    # the stored table gives the same maps
    if rng.random() < .4:
        again = sc.execute(w, p, tgt, '2t', mode, None, None, None, interp, fmt, outdir='again', create=False)
        o.check(again.ok, 'invdist-table-run', again.res.brief())
        for (s, a), (_, b) in zip(run_.frames, again.frames):
            good &= o.check(sc.close(a, b, 1e-12, 1e-12), 'invdist-table', lambda: f'step {s} with the stored table: {sc.diff(b, a)}')
        o.count('table_reused')
    o.count('nc_targets', tgt.lat.endswith('.nc'))
    if good:
        o.sig(kind, src.grid.kind, src.grid.edition, mode, tgt.lat.endswith('.nc'), fmt, any(m is not None for m in masks), bool((outside & cl).any()))
        o.sample(dict(kind=kind, mode=mode, shape=tgt.shape, fmt=fmt))
