"""Whole executions composed at random: input, target maps, parameter, conversion, correction, aggregation, interpolation and output options.

Used by the properties that compare two ways of running the same execution, so no reference is computed here.
"""
import json
import os

import numpy as np

import gen
import scene as sc

ADW = ('adw', 'cdd')
MODES = ['nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'cdd', 'grib_nearest', 'grib_invdist']


class Execution:
    """doc: the execution file; sel: options that the command line has too (long names)."""

    def __init__(self):
        self.doc, self.sel, self.grib, self.grib2, self.geos, self.feat, self.short, self.files = None, {}, None, None, [], {}, None, []

    def argv(self, w, od, fmt, json_path, create=True, tables=None):
        gen.write_json(json_path, self.doc)
        a = ['-c', json_path, '-i', self.grib, '-o', od, '-F', fmt]
        if self.grib2:
            a += ['-I', self.grib2]
        opt = {'start': '-s', 'end': '-e', 'perturbationNumber': '-m', 'dataTime': '-T', 'dataDate': '-D'}
        for k, v in self.sel.items():
            a += [opt[k], str(v)]
        if tables:
            a += ['-N', tables]
        return a + (['-B'] if create else [])

    def api_conf(self, create=True, tables=None, inner=()):
        """the same execution for ApiContext; inner: selectors under Parameter"""
        e = self.doc['Execution']

        def strip(d):
            return {k.lstrip('@'): strip(v) if k == 'Interpolation' else v for k, v in d.items()}
        c = {'loggerLevel': 'ERROR', 'inputFile': self.grib, 'createIntertable': create, 'interpolationParallel': False,
             'OutMaps': strip(e['OutMaps']), 'Parameter': strip(e['Parameter'])}
        if 'Aggregation' in e:
            c['Aggregation'] = strip(e['Aggregation'])
        names = {'start': 'tstart', 'end': 'tend'}
        for k in self.sel:
            if k in inner:
                c['Parameter'][names.get(k, k)] = self.sel[k]
            else:
                c[k] = self.sel[k]
        if self.grib2:
            c['inputFile2'] = self.grib2
        if tables:
            c['intertableDir'] = tables
        return c

    def key(self):
        return '|'.join(f'{k}={v}' for k, v in sorted(self.feat.items()))


def parameters(w, ex=None):
    """the only parameter with levels, and a conversion of the user"""
    cut = getattr(ex, 'cut', None)
    mine = {}
    if cut is not None:
        id_, unit, f = ('m2mm', 'mm', 'x=x*1000-15') if ex.short == 'sro' else ('k2c', 'C', 'x=x-273.15')
        mine = {ex.short: {'@description': 'mine', '@shortName': ex.short, '@unit': 'u', 'Conversion': {'@id': id_, '@unit': unit, '@function': f, '@cutOffNegative': cut}}}
    gen.write_json(w.pyg2p_home + '/parameters.json', dict(mine, **{'description': 'x', 't': {'@description': 'temperature', '@shortName': 't', '@unit': 'K'}}))


def register(w, ex, o, mech):
    parameters(w, ex)
    for g in ex.geos:
        r = w.cli(['-g', g])
        if not o.check(r.ok, mech, lambda: f'-g {g}: {r.brief()}'):
            return False
    return True


def compose(w, rng, tag='', modes=None, kinds=('inst', 'inst', 'accum', 'avg', 'members', 'level', 'dates', 'two'), netcdf_targets=True, nmax=7, lon1=None, correction=.3, sub=None, shape=None, inside=0):
    """files named after tag in the folder of the case"""
    ex = Execution()
    kind = rng.choice(kinds)
    mode = rng.choice(modes or MODES)
    ed = rng.choice([1, 2])
    if kind == 'accum' or kind == 'members':
        ed = 1
    if sub:
        w.outdir(sub)

    def path(name):
        return w.path(*([sub] if sub else []), tag + name)
    n1, n2 = rng.randint(5, nmax), rng.randint(5, nmax)
    la, lo, d = rng.choice([60., 45., 30., -10.]), (rng.choice([0., 5., 10.5, 100., 200.]) if lon1 is None else lon1), rng.choice([.5, 1.])
    grids = [gen.Grid(ni=n1, nj=n2, lat1=la, lon1=lo, dlat=d, dlon=d, edition=ed)]
    two = kind == 'two'
    if two:
        grids.append(gen.Grid(ni=2 * n1 - 1, nj=2 * n2 - 1, lat1=la, lon1=lo, dlat=d / 2, dlon=d / 2, edition=ed))
    srcs = [sc.Source(g) for g in grids]
    n = srcs[0].n
    short = {'accum': rng.choice(['tp', 'sro', 'e']), 'level': 't'}.get(kind, '2t')
    ex.short = short
    # what the conversion of the user does to negative values
    ex.cut = rng.choice([None, True, False, 'True', 'False', 'true', 'false', 'N']) if short in ('sro', '2t') and rng.random() < .7 else None
    feat = dict(kind=kind, mode=mode, ed=ed)
    mask = w.np.rand(n) < .15 if rng.random() < .3 and not two else None
    feat['missing'] = mask is not None and bool(mask.any())
    dt = rng.choice([3, 6])
    nst = rng.randint(4, 6)
    steps = [k * dt for k in range(nst)]
    msgs = []
    E = steps[-1]

    def inst(s, src=None, **k):
        src = src or srcs[0]
        lv = (lambda: sc.field(w.np, src.n, 240, 310))
        return gen.message(src.grid, short, (s, s), None, lv(), mask=mask, **k)
    if kind == 'accum':
        base = np.zeros(n)
        for s in steps[rng.randint(0, 1):]:
            base = base + sc.field(w.np, n, 0, .01)
            msgs.append(gen.message(grids[0], short, (0, s), None, base if s else base * 0, mask=mask))
    elif kind == 'members':
        for m in (1, 2, 5):
            msgs += [inst(s, member=m) for s in steps]
        ex.sel['perturbationNumber'] = rng.choice([1, 2, 5])
    elif kind == 'level':
        ex.levels = rng.choice([(500, 850), (0, 850), (0, 500)])
        for v in ex.levels:
            msgs += [inst(s, level=v, level_type='isobaricInhPa') for s in steps]
    elif kind == 'dates':
        for dd in (20240115, 20240116):
            for t in (0, 1200):
                msgs += [inst(s, date=dd, time=t) for s in steps]
        ex.sel.update(dataDate=rng.choice([20240115, 20240116]), dataTime=rng.choice([0, 1200]))
    elif two:
        steps = [0, 6, 12]
        E = 24
        msgs = [inst(s) for s in steps]
        msgs2 = [inst(s, srcs[1]) for s in (12, 18, 24)]
    else:
        msgs = [inst(s) for s in steps]
    if two and rng.random() < .5:
        ex.grib2 = gen.write_grib(path('in2.grb'), msgs2)
    elif two:
        msgs += msgs2
    extra = []
    if not two and rng.random() < .3:
        other = '2d' if short != '2d' else '10u'
        extra = [gen.message(grids[0], other, (s, s), None, sc.field(w.np, n, 200, 300)) for s in steps]
    both = msgs + extra
    ex.grib = gen.write_grib(path('in.grb'), both)
    # target
    drawn = (rng.randint(3, 5), rng.randint(3, 5))
    shape = shape or drawn
    nc_t = netcdf_targets and rng.random() < .3
    hi, wi = (n2 - 1) * d, (n1 - 1) * d
    clone_missing = sc.random_clone_missing(rng, shape)
    if nc_t:
        lats = la - np.sort(w.np.uniform(.05, .95, shape[0])) * hi
        lons = lo + np.sort(w.np.uniform(.05, .95, shape[1])) * wi
        names = rng.choice([('lat', 'lon'), ('y', 'x')])
        p = gen.write_nc_map(path('t.nc'), lats, lons, np.ones(shape), clone_missing, names)
        lat = lon = p
        clone = p
        if rng.random() < .4:
            clone = gen.write_pcr(path('clone.map'), np.ones(shape), None, clone_missing)
        maps = (lat, lon, clone)
    else:
        la_, lo_ = la - w.np.uniform(.05, .95, shape) * hi, lo + w.np.uniform(.05, .95, shape) * wi
        if rng.random() < .3:
            la_[0, 0], lo_[0, 0] = la - d, lo + d
        coord_missing = (w.np.rand(*shape) < .1) if rng.random() < .2 else None
        if coord_missing is not None:
            coord_missing[0, 0] = False
        t = sc.target_maps(w, la_, lo_, clone_missing, coord_missing, name=(os.path.join(sub, tag) if sub else tag) + 't')
        maps = (t.lat, t.lon, t.clone)
    feat['target'] = ('nc' if nc_t else 'map') + ('+map' if nc_t and maps[2] != maps[0] else '')
    interp = {}
    if mode in ADW:
        if mode == 'cdd':
            interp['@cdd_map'] = gen.write_pcr(path('cdd.map'), np.full(shape, 40. + 400 * rng.random()))
            interp['@cdd_mode'] = rng.choice(['Hofstra', 'MixHofstraShepard'])
        if rng.random() < .5:
            interp['@use_broadcasting'] = True
        if rng.random() < .3:
            interp['@num_of_splits'] = rng.choice([1, 2, 3])
    # parameter
    param = {}
    if kind == 'level':
        param['@level'] = rng.choice([*ex.levels, *map(str, ex.levels)])
    conv = {'2t': 'k2c', 'tp': 'tomm', 'e': 'tomm', 'sro': 'm2mm'}.get(short)
    feat['conv'] = bool(conv) and rng.random() < .5
    if feat['conv']:
        param['@applyConversion'] = conv
    feat['corr'] = kind not in ('accum', 'level') and rng.random() < correction
    if feat['corr']:
        dem = gen.write_pcr(path('dem.map'), sc.field(w.np, shape[0] * shape[1], 0, 3000).reshape(shape))
        if mask is None:
            for k, s in enumerate(srcs):
                z = sc.field(w.np, s.n, 0, 20000)
                ex.geos.append(gen.write_grib(path(f'geo{k}.grb'), [gen.message(s.grid, rng.choice(['z', 'z', 'orog', 'FIS']), (0, 0), None, z)]))
        else:
            # identifiers of grids have the number of values that are not missing
            z = sc.field(w.np, n, 0, 20000)
            ex.geos.append(gen.write_grib(path('geo0.grb'), [gen.message(grids[0], 'z', (0, 0), None, z, mask=mask)]))
        if inside and kind != 'members' and not nc_t and rng.random() < inside:
            # one or all of them are in the inputs
            feat['inside'] = 0
            for k, g in list(enumerate(ex.geos)):
                if rng.random() < .7:
                    with open(ex.grib2 if k and ex.grib2 else ex.grib, 'ab') as f, open(g, 'rb') as z:
                        f.write(z.read())
                    ex.geos.remove(g)
                    feat['inside'] += 1
        param.update({'@correctionFormula': rng.choice(['p+gem-dem*0.0065', 'p-gem+dem/100']), '@gem': rng.choice(['(z/9.81)*0.0065', 'z*0.001']), '@demMap': dem})
    # aggregation
    agg = None
    A = rng.choice([x for x in (3, 6, 12) if x % dt == 0 and x <= E]) if not two else rng.choice([6, 12])
    if two:
        agg = sc.agg_conf(A, rng.choice(['average', 'instantaneous']))
        if agg['@type'] == 'average' and rng.random() < .4:
            agg['@halfweights'] = rng.choice([True, 'true', 1])
    elif kind == 'accum':
        agg = rng.choice([None, sc.agg_conf(A, 'accumulation', force=rng.choice([None, 'True', True, False, 'False', 'false', 'no']))])
    elif kind != 'dates' and rng.random() < .6:
        agg = sc.agg_conf(A, rng.choice(['average', 'instantaneous']))
        if agg['@type'] == 'average' and rng.random() < .5:
            agg['@halfweights'] = rng.choice([True, 'true', 1])
    feat['agg'] = (agg['@type'] + ('_half' if agg.get('@halfweights') else '')) if agg else None
    if agg is None:
        if rng.random() < .5:
            ex.sel['start'] = rng.choice(steps[:3])
        if rng.random() < .5:
            ex.sel['end'] = rng.choice(steps[3 if kind == 'accum' else 2:])
    else:
        ex.sel['start'] = rng.choice([0, A])
        last = E // A * A
        ex.sel['end'] = last
        if rng.random() < .3:
            del ex.sel['start']
        if rng.random() < .3 and last == E:
            del ex.sel['end']
    out = {'@cloneMap': maps[2], 'Interpolation': dict({'@latMap': maps[0], '@lonMap': maps[1], '@mode': mode}, **interp)}
    if rng.random() < .5:
        out['@unitTime'] = rng.choice([6, 24, A])
    out['@namePrefix'] = rng.choice(['pT', 'out', short])
    ex.doc = {'Execution': {'@name': tag or 'x', 'Parameter': dict({'@shortName': short}, **param), 'OutMaps': out}}
    if agg:
        ex.doc['Execution']['Aggregation'] = agg
    feat['sel'] = ','.join(sorted(ex.sel))
    feat['two'] = 'file' if ex.grib2 else two
    ex.feat = feat
    ex.maps = maps
    ex.shape = shape
    ex.clone_missing = clone_missing
    return ex


def read_out(od, fmt):
    """list of (step or None, map with nan) in order"""
    if fmt == 'netcdf':
        f = [x for x in sorted(os.listdir(od)) if x.endswith('.nc')]
        if len(f) != 1:
            return None
        d = gen.read_nc(os.path.join(od, f[0]))
        return [(int(t), v) for t, v in zip(d['time'], d['values'])]
    f = sorted(x for x in os.listdir(od) if not x.endswith('.xml') and not x.endswith('.nc'))
    return [(None, gen.read_pcr(os.path.join(od, x))[0]) for x in f]


def dump(ex):
    return json.dumps(dict(doc=ex.doc, sel=ex.sel, grib=ex.grib, grib2=ex.grib2))


def same_maps(a, b, rtol=1e-9, atol=1e-9):
    return a is not None and b is not None and len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True) for (_, x), (_, y) in zip(a, b))


def first_diff(a, b):
    if a is None or b is None:
        return f'{a is None} {b is None}'
    if len(a) != len(b):
        return f'{len(a)} maps, {len(b)} maps ({[s for s, _ in a]}, {[s for s, _ in b]})'
    for k, ((s, x), (_, y)) in enumerate(zip(a, b)):
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
            return f'map {k} step {s}: {sc.diff(x, y)}'
    return 'nothing'


def content(folder):
    """everything a run left in its output folder: name -> description that can be compared with =="""
    from netCDF4 import Dataset
    res = {}
    for name in sorted(os.listdir(folder)):
        p = os.path.join(folder, name)
        if os.path.isdir(p):
            res[name] = 'folder'
        elif name.endswith('.nc'):
            with Dataset(p) as d:
                d.set_auto_maskandscale(False)
                c = {'dims': {k: len(v) for k, v in d.dimensions.items()}, 'global': {k: str(d.getncattr(k)) for k in d.ncattrs() if k != 'history'}}
                for k, v in d.variables.items():
                    c[k] = (str(v.dtype), v.dimensions, {a: str(v.getncattr(a)) for a in v.ncattrs()}, np.asarray(v[:]))
            res[name] = c
        elif not name.endswith('.xml'):
            try:
                res[name] = gen.read_pcr(p)
            except Exception:
                with open(p, 'rb') as f:
                    res[name] = f.read()
    return res


def differ(a, b, tol=0.):
    """None, or where two contents differ"""
    if type(a) is not type(b):
        return f'{a!r:.80} / {b!r:.80}'
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            return f'{sorted(a)} / {sorted(b)}'
        for k in a:
            d = differ(a[k], b[k], tol)
            if d:
                return f'{k}: {d}'
        return None
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f'{a!r:.80} / {b!r:.80}'
        for x, y in zip(a, b):
            d = differ(x, y, tol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return f'shapes {a.shape} / {b.shape}'
        if a.dtype.kind == 'f':
            ok = np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
        elif tol:
            ok = np.all(np.abs(a.astype(float) - b.astype(float)) <= 1)
        else:
            ok = np.array_equal(a, b)
        return None if ok else 'values: ' + sc.diff(a.astype(float), b.astype(float))
    return None if a == b else f'{a!r:.100} / {b!r:.100}'
