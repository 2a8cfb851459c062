"""C10 bilinear, triangulation, bilinear on Delaunay quadrilaterals."""
import numpy as np
import gen
import scene as sc
import interp as ip

QUICK, THOROUGH, WORKERS = 200, 3000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 60
RULE = ('distinct (mode, source geometry, edition, target kind, longitude convention, cells outside the grid) combinations in which every decided cell was compared with the '
        'value of its grid cell or triangle')
REQUIRE = {'bilinear': 500, 'bilinear_delaunay': 300, 'triangulation': 300, 'smooth': 500, 'outside': 250, 'beyond': 300, 'global': 350, 'dateline': 250}
ASSUMPTIONS = ['cells within the rounding of the maps of a grid line are decided only for not being further away than the neighbouring boxes',
               'cells whose distance from the nearest grid point exceeds the limit the program logs are missing by design and must be missing',
               'grids whose boxes have a diagonal close to ten times that limit are skipped (triangles of that size are given up by design)']
MODES = ['bilinear', 'triangulation', 'bilinear_delaunay']
EXACT = ('ll', 'glob')


def merc(lat):
    la = np.radians(lat)
    return np.log(np.tan(np.pi / 4 + la / 2))


def pick(rng, mode):
    cls = rng.choice(['ll', 'll', 'll', 'glob', 'rotated', 'gg'])
    if cls == 'glob':
        dl = rng.choice([5., 4., 8., 3.])
        d = rng.choice([x for x in (3., 5., 4., 8.) if .5 <= x / dl <= 2])
        top = rng.choice([75., 80., 66.])
        g = gen.Grid(ni=int(360 / dl), nj=int(2 * top / d) + 1, lat1=top, lon1=rng.choice([0., 0., dl / 2]), dlat=d, dlon=dl, edition=rng.choice([1, 2]))
        return cls, 'global', sc.Source(g)
    if cls == 'gg':
        g = gen.Grid(rng.choice(['reduced_gg', 'regular_gg']), edition=rng.choice([1, 2]))
        return cls, g.kind, sc.Source(g)
    if cls == 'rotated':
        kind, src = ip.pick_source(rng, ('rotated',), big=16)
        return cls, kind, src
    kind, src = ip.pick_source(rng, ('regional', 'regional', 'dateline', 'zero', 'south'), big=rng.choice([8, 16, 30]))
    g = src.grid
    while g.lat1 - (g.nj - 1) * g.dlat < -85 or (g.ni - 1) * g.dlon > 150:
        g.nj, g.ni = max(4, g.nj - 2), max(4, g.ni - 2)
        src = sc.Source(g)
    if mode == 'bilinear' and not .5 <= g.dlat / g.dlon <= 2:
        # the search for the enclosing points walks through the nearest neighbours: no strongly stretched boxes
        g.dlon = g.dlat
        src = sc.Source(g)
    return cls, kind, src


def lon_span(lons):
    """the middle of the widest gap between the meridians"""
    u = np.unique(np.round(lons % 360., 6))
    gp = np.diff(np.append(u, u[0] + 360.))
    k = int(np.argmax(gp))
    return u[k] + gp[k] / 2


def run(w, rng, o, i):
    mode = MODES[i % 3]
    cls, kind, src = pick(rng, mode)
    while mode != 'triangulation' and cls == 'rotated':
        cls, kind, src = pick(rng, mode)
    tgt = ip.make_target(w, rng, w.np, src, nmax=9, p_nc=.4, outside=.15, any_lon=0)
    g = src.grid
    exact = cls in EXACT
    lats0, lons0 = src.lats, src.lons
    first = lon_span(lons0)
    rel = (lons0 - first) % 360.
    if exact:
        flds = [sc.field(w.np, src.n, 0, 100), sc.field(w.np, src.n, 0, 100)]
    else:
        flds = [lats0, rel, merc(lats0) * 50., sc.field(w.np, src.n, 0, 1)]
    p = gen.write_grib(w.path('in.grb'), [gen.message(g, '2t', (k, k), None, f) for k, f in enumerate(flds)])
    o.case = dict(mode=mode, cls=cls, kind=kind, grid=g.key(), shape=tgt.shape, nc=tgt.lat.endswith('.nc'))
    r = sc.execute(w, p, tgt, '2t', mode)
    if not o.check(r.ok and len(r.frames) == len(flds), 'mesh-run', f'{mode} on {kind} {g.key()}: {r.res.brief()} {len(r.frames)} maps'):
        return
    got = np.stack([f.ravel() for _, f in r.frames], 1)
    decs = gen.decode(p)
    vals = np.stack([x['values'] for x in decs], 1)
    dec = decs[0]
    lats, lons = dec['lats'], dec['lons']
    cl = tgt.clone_missing.ravel()
    tl, tn = tgt.lats.ravel(), tgt.lons.ravel()
    d = ip.distances(tl, tn, lats, lons, dec['radius']).min(1)
    bound = ip.spacing_bound(src, dec['radius'], dec['Nj'])
    tol = 1e-9 if tgt.lat.endswith('.nc') else 2e-5
    seen = dict(outside=0, beyond=0, node=0)
    good = True

    def cell(c):
        return f'{mode} on {kind} {g.key()}: cell {c} at {tl[c]:.5f} {tn[c]:.5f}'

    limit_all = mode == 'bilinear' or cls != 'glob'
    if cls == 'gg':
        limit_all = mode == 'bilinear'
    for c in np.flatnonzero(~cl):
        v = got[c]
        missing = bool(np.isnan(v).any())
        good &= o.check(np.isnan(v).all() or not missing, 'mesh-mixed', lambda: f'{cell(c)}: {v}')
        if limit_all and d[c] > bound + tgt.delta + 1e-9 * bound:
            good &= o.check(missing, 'mesh-beyond', lambda: f'{cell(c)} is {d[c]:.0f} m from the nearest grid point (limit {bound:.0f}) and holds data')
            seen['beyond'] += 1
            continue
        near = not limit_all or d[c] < bound - tgt.delta - 1e-9 * bound
        if exact:
            good &= regular(o, mode, cls, g, src, tgt, c, v, missing, near, bound, vals, lats, lons, tl, tn, tol, seen, cell)
        else:
            good &= smooth(o, mode, cls, g, src, c, v, missing, near, lats, lons, vals, tl, tn, first, tol, seen, cell, d, dec['radius'])
    if good and not tgt.clone_missing.all():
        o.sig(mode, kind, g.edition, tgt.lat.endswith('.nc'), bool((tn > 180).any()), seen['outside'] > 0)
    for k, n in seen.items():
        o.count(k, n)
    if kind == 'dateline':
        o.count('dateline', int((~cl).sum()))


def regular(o, mode, cls, g, src, tgt, c, v, missing, near, bound, vals, lats, lons, tl, tn, tol, seen, cell):
    glob = cls == 'glob'
    x = (tn[c] - lons[0] + 1e-4) % 360. - 1e-4
    fx, fy = x / g.dlon, (lats[0] - tl[c]) / g.dlat
    ex, ey = 3e-4 / g.dlon, 3e-4 / g.dlat
    inx = glob or (ex < fx < g.ni - 1 - ex)
    outx = not glob and (fx < -ex or fx > g.ni - 1 + ex)
    iny, outy = ey < fy < g.nj - 1 - ey, fy < -ey or fy > g.nj - 1 + ey
    if outx or outy:
        if not glob:
            seen['outside'] += 1
            return o.check(missing, 'mesh-outside', lambda: f'{cell(c)} lies outside the grid and holds data')
        return True
    if not (inx and iny) or not near:
        return True
    if mode != 'bilinear' and not glob and np.hypot(g.dlat, g.dlon) * 111300 > 9.5 * bound:
        return True
    if not o.check(not missing, 'mesh-missing', lambda: f'{cell(c)} lies inside the grid and is missing'):
        return False
    i0, j0 = int(np.floor(fx)), int(np.floor(fy))
    a, b = fx - i0, fy - j0
    i1 = (i0 + 1) % g.ni if glob else i0 + 1
    i0 %= g.ni
    nw, ne, sw, se = j0 * g.ni + i0, j0 * g.ni + i1, (j0 + 1) * g.ni + i0, (j0 + 1) * g.ni + i1
    t = (tol / min(g.dlat, g.dlon) * 4 + 1e-7) * 100
    if mode != 'triangulation':
        cands = [(1 - a) * (1 - b) * vals[nw] + a * (1 - b) * vals[ne] + (1 - a) * b * vals[sw] + a * b * vals[se]]
    else:
        m = (merc(lats[nw]) - merc(tl[c])) / (merc(lats[nw]) - merc(lats[sw]))
        t *= 4
        cands = [(1 - a) * vals[nw] + (a - m) * vals[ne] + m * vals[se] if a > m else (1 - m) * vals[nw] + (m - a) * vals[sw] + a * vals[se],
                 (1 - a - m) * vals[nw] + a * vals[ne] + m * vals[sw] if a + m < 1 else (a + m - 1) * vals[se] + (1 - m) * vals[ne] + (1 - a) * vals[sw]]
    err = min(np.abs(v - q).max() for q in cands)
    o.count(mode)
    if glob:
        o.count('global')
    near_line = min(a, 1 - a) < ex or min(b, 1 - b) < ey
    if near_line:
        seen['node'] += 1
    return o.check(err <= t, 'mesh-value', lambda: f'{cell(c)}: got {v} want {[list(map(float, q)) for q in cands]} box {j0} {i0} shares {a:.6f} {b:.6f} tolerance {t:.3g}')


def smooth(o, mode, cls, g, src, c, v, missing, near, lats, lons, vals, tl, tn, first, tol, seen, cell, d, radius):
    """irregular meshes: the value is a convex combination of close points centred on the cell"""
    rel = (tn[c] - first) % 360.
    if cls == 'gg':
        if not -80 < tl[c] < 80 or not 12 < rel < 348:
            return True
    if missing:
        return True
    o.count('smooth')
    lo, hi = vals[:, 3].min(), vals[:, 3].max()
    ok = o.check(lo - 1e-6 <= v[3] <= hi + 1e-6, 'mesh-range', lambda: f'{cell(c)}: {v[3]} outside the range of the data {lo} {hi}')
    # triangles of grids on parallels are linear in the Mercator ordinate, quadrilaterals and projected grids in the latitude
    el, em, en = v[0] - tl[c], v[2] / 50. - merc(tl[c]), v[1] - rel
    # (cells at the edge of such a quadrilateral may lie a little outside of it, and take the closest point of the edge)
    te, tm = (.05, 1e-3) if mode == 'bilinear_delaunay' else (1e-3, 2e-5)
    lat_ok = (cls == 'rotated' or mode != 'triangulation') and abs(el) < te or cls == 'gg' and mode != 'bilinear' and abs(em) < tm
    return ok & o.check(lat_ok and abs(en) < te, 'mesh-centre', lambda: f'{cell(c)}: latitude field {el:+.5f} Mercator field {em:+.6f} longitude field {en:+.5f}')
