"""Sources, targets and neighbour geometry for the interpolation properties (independent brute force, double precision)."""
import numpy as np

import gen
import scene as sc


def pick_source(rng, kinds=('regional', 'regional', 'global', 'polar', 'dateline', 'zero', 'south', 'rotated', 'gauss'), editions=(1, 2), big=9):
    """A grid of one of several geometries; returns (kind, Source)."""
    kind = rng.choice(kinds)
    ed = rng.choice(editions)
    d, dl = rng.choice([.25, .5, 1., 1.5, 2.]), rng.choice([.25, .5, 1., 1.5, 2.])
    ni, nj = rng.randint(4, big), rng.randint(4, big)
    if kind == 'gauss':
        g = gen.Grid(rng.choice(['reduced_gg', 'regular_gg']), edition=ed)
    elif kind == 'rotated':
        g = gen.Grid('rotated_ll', ni=ni, nj=nj, lat1=rng.choice([10., 20., 3.]), lon1=rng.choice([0., 5., 340.]), dlat=d, dlon=dl, edition=ed,
                     south_pole=rng.choice([(-40., 10.), (-30., 0.), (-47., 15.)]))
    elif kind == 'global':
        dl = rng.choice([10., 15., 20.])
        d = rng.choice([10., 15.])
        nj = int(150 / d) + 1
        g = gen.Grid(ni=int(360 / dl), nj=nj, lat1=75., lon1=rng.choice([0., 0., 5.]), dlat=d, dlon=dl, edition=ed)
    elif kind == 'polar':
        g = gen.Grid(ni=rng.choice([12, 18]), nj=nj, lat1=89., lon1=0., dlat=rng.choice([1., 2.]), dlon=rng.choice([20., 10.]), edition=ed)
    elif kind == 'dateline':
        g = gen.Grid(ni=ni, nj=nj, lat1=rng.choice([50., 5.]), lon1=180. - dl * rng.choice([1, 2, 2.5]), dlat=d, dlon=dl, edition=ed)
    elif kind == 'zero':
        g = gen.Grid(ni=ni, nj=nj, lat1=rng.choice([50., 5.]), lon1=360. - dl * rng.choice([1, 2, 2.5]), dlat=d, dlon=dl, edition=ed)
    elif kind == 'south':
        g = gen.Grid(ni=ni, nj=nj, lat1=rng.choice([-5., -30.5, -50.]), lon1=rng.choice([0., 20., 120., 280.]), dlat=d, dlon=dl, edition=ed)
    else:
        g = gen.Grid(ni=ni, nj=nj, lat1=rng.choice([60., 45.5, 30., 3.]), lon1=rng.choice([0., 5., 10.5, 100., 200., 300.]), dlat=d, dlon=dl, edition=ed)
    return kind, sc.Source(g)


def xyz(lats, lons, r=6371229.):
    la, lo = np.radians(np.asarray(lats, float).ravel()), np.radians(np.asarray(lons, float).ravel())
    return np.stack([r * np.cos(lo) * np.cos(la), r * np.sin(lo) * np.cos(la), r * np.sin(la)], 1)


def distances(tl, tn, sl, sn, r):
    a, b = xyz(tl, tn, r), xyz(sl, sn, r)
    d2 = ((a[:, None, :] - b[None, :, :]) ** 2).sum(2)
    return np.sqrt(np.maximum(d2, 0))


def spacing_bound(src, r, nj):
    """the documented-in-log limit: largest distance between neighbouring grid points, plus 4/Nj of it"""
    n = src.n
    p = xyz(src.lats, src.lons, r)
    best = np.empty(n)
    for k in range(0, n, 500):
        d = np.sqrt(((p[k:k + 500, None, :] - p[None, :, :]) ** 2).sum(2))
        d[np.arange(d.shape[0]), np.arange(k, k + d.shape[0])] = np.inf
        best[k:k + 500] = d.min(1)
    return best.max() * (1 + 4. / nj)


def coords(rng, np_, src, n, outside=.25, on_node=.15, near=None):
    """n target points: most inside the source area, some on nodes, some around it or far away."""
    g = src.grid
    lats, lons = np.empty(n), np.empty(n)
    step = 3. if g.kind in ('reduced_gg', 'regular_gg') else max(g.dlat, g.dlon)
    for k in range(n):
        u = rng.random()
        j = rng.randrange(src.n)
        if u < on_node:
            lats[k], lons[k] = src.lats[j], src.lons[j]
        elif u < on_node + outside:
            v = rng.random()
            if v < .5:
                lats[k] = src.lats[j] + rng.uniform(-8, 8) * step
                lons[k] = src.lons[j] + rng.uniform(-8, 8) * step
            elif v < .9:
                j = rng.choice([0, src.n - 1, (g.ni if g.kind.endswith('ll') else 20) - 1])
                lats[k] = src.lats[j] + rng.uniform(-2, 2) * step
                lons[k] = src.lons[j] + rng.uniform(-2, 2) * step
            else:
                lats[k], lons[k] = rng.uniform(-89, 89), rng.uniform(-180, 180)
        else:
            lats[k] = src.lats[j] + rng.uniform(-.5, .5) * (g.dlat if g.kind.endswith('ll') else 2.5)
            lons[k] = src.lons[j] + rng.uniform(-.5, .5) * (g.dlon if g.kind.endswith('ll') else 2.5)
    return np.clip(lats, -89.9, 89.9), lons


def pcr_target(w, rng, lats, lons, shape, name='t', clone_missing=None, coord_missing=None):
    """Arbitrary points in REAL4 maps; the target knows the coordinates as stored."""
    lats = np.asarray(lats).reshape(shape)
    lons = sc.wrap_lon(rng, np.asarray(lons).reshape(shape))
    la, lo = lats.astype(np.float32).astype(float), lons.astype(np.float32).astype(float)
    cm = sc.random_clone_missing(rng, shape) if clone_missing is None else clone_missing
    t = sc.target_maps(w, la, lo, cm, coord_missing, name=name)
    t.delta = 6.
    return t


def nc_target(w, rng, lat1d, lon1d, name='t', clone_missing=None, names=('lat', 'lon')):
    """Regular target in one netCDF map (double precision coordinates), used as lat, lon and clone map."""
    lat1d, lon1d = np.asarray(lat1d, float), np.asarray(lon1d, float)
    shape = (lat1d.size, lon1d.size)
    cm = sc.random_clone_missing(rng, shape) if clone_missing is None else clone_missing
    p = gen.write_nc_map(w.path(f'{name}.nc'), lat1d, lon1d, missing=cm, names=names)
    la, lo = np.meshgrid(lat1d, lon1d, indexing='ij')
    t = sc.Target(p, p, p, la, lo, cm)
    t.delta = 1e-3
    return t


def make_target(w, rng, np_, src, p_nc=.35, outside=.25, on_node=.15, nmax=9, name='t', any_lon=.2):
    shape = (rng.randint(2, nmax), rng.randint(2, nmax))
    if rng.random() < p_nc:
        g = src.grid
        step = 3. if g.kind in ('reduced_gg', 'regular_gg') else 1.
        j0 = rng.randrange(src.n)
        dla = step * (g.dlat if g.kind.endswith('ll') else 1) * rng.choice([.3, .7, 1., 1.6])
        dlo = step * (g.dlon if g.kind.endswith('ll') else 1) * rng.choice([.3, .7, 1., 1.6])
        la = np.clip(src.lats[j0], -60, 80) - dla * np.arange(shape[0]) + rng.choice([0., rng.uniform(-1, 1) * dla])
        lo = src.lons[j0] + dlo * np.arange(shape[1]) + rng.choice([0., rng.uniform(-1, 1) * dlo])
        lo = lo - 360 if rng.random() < (.4 if lo.min() >= 180 else any_lon) else lo
        return nc_target(w, rng, la, lo, name=name, names=rng.choice([('lat', 'lon'), ('y', 'x')]))
    la, lo = coords(rng, np_, src, shape[0] * shape[1], outside, on_node)
    return pcr_target(w, rng, la, lo, shape, name=name)


def bounded_box(src, lats, lons, margin=0.):
    """cells well inside / well outside the lat-lon box of a regular_ll grid whose meridians grow in [0, 360)"""
    g = src.grid
    lo = np.mod(lons, 360.)
    a, b = src.lons[0], src.lons[g.ni - 1]
    s, n = src.lats.min(), src.lats.max()
    inside = (lats > s + margin) & (lats < n - margin) & (lo > a + margin) & (lo < b - margin)
    outside = (lats < s - margin) | (lats > n + margin) | (lo < a - margin) | (lo > b + margin)
    return inside, outside


def to_rotated(lats, lons, pole):
    """coordinates of a grid whose south pole is at pole (latitude, longitude)"""
    t, f = np.radians(90. + pole[0]), np.radians(pole[1])
    m = np.array([[np.cos(t) * np.cos(f), np.cos(t) * np.sin(f), np.sin(t)], [-np.sin(f), np.cos(f), 0.], [-np.sin(t) * np.cos(f), -np.sin(t) * np.sin(f), np.cos(t)]])
    p = xyz(lats, lons, 1.) @ m.T
    return np.degrees(np.arcsin(np.clip(p[:, 2], -1, 1))).reshape(np.shape(lats)), np.degrees(np.arctan2(p[:, 1], p[:, 0])).reshape(np.shape(lats))


def from_rotated(lats, lons, pole):
    t, f = np.radians(90. + pole[0]), np.radians(pole[1])
    m = np.array([[np.cos(t) * np.cos(f), np.cos(t) * np.sin(f), np.sin(t)], [-np.sin(f), np.cos(f), 0.], [-np.sin(t) * np.cos(f), -np.sin(t) * np.sin(f), np.cos(t)]])
    p = xyz(lats, lons, 1.) @ m
    return np.degrees(np.arcsin(np.clip(p[:, 2], -1, 1))).reshape(np.shape(lats)), np.degrees(np.arctan2(p[:, 1], p[:, 0])).reshape(np.shape(lats))


def rotated_target(w, rng, tgt, pole, name='rt'):
    """the same cells, given by coordinates of the rotated grid"""
    la, lo = to_rotated(tgt.lats, tgt.lons, pole)
    la, lo = la.astype(np.float32).astype(float), sc.wrap_lon(rng, lo).astype(np.float32).astype(float)
    p, q = w.path(f'{name}_lat.map'), w.path(f'{name}_lon.map')
    gen.write_pcr(p, la, tgt.gt, tgt.coord_missing)
    gen.write_pcr(q, lo, tgt.gt, tgt.coord_missing)
    la, lo = from_rotated(la, lo, pole)
    t = sc.Target(p, q, tgt.clone, la, lo, tgt.clone_missing, None, tgt.gt, tgt.coord_missing)
    t.delta = tgt.delta
    return t
