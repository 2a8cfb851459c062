"""C24 inputs with two spatial resolutions, in one or two files."""
import numpy as np
import gen
import scene as sc
import c02
import c03
import c04

QUICK, THOROUGH, WORKERS = 800, 4000, 8
LEVEL = 'exploration'
RULE = ('distinct (one or two files, aggregation, parameter, steps of both resolutions, start and end given, conversion, correction, mode, format, missing data) situations with maps of both '
        'resolutions, all compared with the messages of their resolution')
REQUIRE = {'maps': 400, 'first_maps': 200, 'second_maps': 200, 'two_files': 50, 'one_file': 50, 'single_second': 15, 'no_end': 30, 'corrected': 20, 'with_missing': 40, 'not_aggregated': 30}
ASSUMPTIONS = ['the second resolution starts with an overlapping message at a multiple of the aggregation step (as documented for such data)']


def run(w, rng, o, i):
    ed = rng.choice([1, 2])
    kind = rng.choice(['accumulation', 'accumulation', 'average', 'average', 'halfweights', 'instantaneous'])
    short = rng.choice(['tp', 'sro', 'cp']) if kind == 'accumulation' else rng.choice(['2t', '2d', '10u'])
    if rng.random() < .15:
        # every message is a map, of the first resolution up to the change
        kind = 'none'
        short = rng.choice(['tp', '2t', '2d', '10u'])
    totals = short in ('tp', 'sro', 'cp')
    if totals:
        ed = 1
    k1, k2 = rng.choice([(2, 1), (1, 2), (3, 1), (1, 3)])       # coarser or finer
    ni, nj = rng.randint(2, 4), rng.randint(2, 4)
    lat1, lon1, d = rng.choice([60., 45., 3., -10.]), rng.choice([0., 5., 170., 350.]), rng.choice([.5, 1., .25])
    grids = [gen.Grid('regular_ll', ni=(ni - 1) * 6 // k + 1, nj=(nj - 1) * 6 // k + 1, lat1=lat1, lon1=lon1, dlat=d * k, dlon=d * k, edition=ed) for k in (k1, k2)]
    srcs = [sc.Source(g) for g in grids]
    # cells on nodes that both grids have
    pairs = []
    where = {}
    for n, (a, b) in enumerate(zip(srcs[1].lats, srcs[1].lons)):
        where[(round(a, 4), round(b % 360, 4))] = n
    for n, (a, b) in enumerate(zip(srcs[0].lats, srcs[0].lons)):
        m = where.get((round(a, 4), round(b % 360, 4)))
        if m is not None:
            pairs.append((n, m))
    shape = (rng.randint(2, 6), rng.randint(2, 6))
    pick = np.array([rng.choice(pairs) for _ in range(shape[0] * shape[1])])
    idx = [pick[:, 0].reshape(shape), pick[:, 1].reshape(shape)]
    tgt = sc.target_maps(w, srcs[0].lats[idx[0]], sc.wrap_lon(rng, srcs[0].lons[idx[0]]), sc.random_clone_missing(rng, shape), idx=idx[0])

    A = rng.choice([6, 12, 24, 3])
    C = A * rng.randint(1, 3)
    dt = rng.choice([x for x in (1, 3, 6, 12) if A % x == 0])
    dt2 = rng.choice([x for x in (1, 3, 6, 12, 24) if A % x == 0])
    steps1 = [k * dt for k in range(C // dt + 1)]
    n2 = rng.choice([1, 1, 2, 3])
    steps2 = [C + k * dt2 for k in range(A * n2 // dt2 + 1)]
    if rng.random() < .25 and steps1[0] == 0 and kind not in ('instantaneous', 'halfweights'):
        steps1 = steps1[1:]
    extra = []
    if rng.random() < .2:
        extra = [C + dt]          # the first resolution may go on: not used
    S = rng.choice([None, None, 0, A]) if C == A else rng.choice([None, 0, A, C])
    E = rng.choice([None, C + A * n2])
    if kind == 'none':
        S = rng.choice([None, 0]) if totals else rng.choice([None, 0, rng.choice(steps1)])
        E = rng.choice([None, rng.choice(steps2[1:])])
    unit = rng.choice([24, A, None])
    conv = {'tp': 'tomm', '2t': 'k2c'}.get(short) if rng.random() < .4 else None
    with_mask = rng.random() < .35
    mode = 'nearest'
    if all(sc.grib_ok(s) for s in srcs) and rng.random() < .5:
        mode = 'grib_nearest'
    if not with_mask and rng.random() < .3:
        # cells on grid points have the value of these
        mode = 'grib_invdist' if mode == 'grib_nearest' else 'invdist'

    series, msgs = [], []
    for n, (s, st) in enumerate(((srcs[0], steps1 + extra), (srcs[1], steps2))):
        base, ms = np.zeros(s.n), []
        mask = sc.random_mask(rng, w.np, s.n) if with_mask else None
        if mask is not None and not with_mask:
            mask = None
        for t in st:
            base = base + sc.field(w.np, s.n, 0, 5) if totals else sc.field(w.np, s.n, 240, 310)
            if n == 1 and t == C and totals:
                base = base + 3.
            ms.append(gen.message(s.grid, short, (0, t) if totals else (t, t), None, base, mask=mask, bits=24))
        msgs.append(ms)
    geos, inside = [], [None, None]
    corr = not totals and rng.random() < .35
    if corr:
        for n, s in enumerate(srcs):
            z = sc.field(w.np, s.n, 0, 9000)
            nm = None
            first = msgs[n][0]
            nm = None
            if with_mask:
                # identifiers of grids have the number of values that are not missing
                tmp = gen.decode(gen.write_grib(w.path(f'probe{n}.grb'), [first]))[0]['values']
                nm = w.np.permutation(np.isnan(tmp))
                if not nm.any():
                    nm = None
            gm = gen.message(s.grid, 'z', (0, 0), None, z, mask=nm, bits=24)
            p = gen.write_grib(w.path(f'geo{n}.grb'), [gm])
            geos.append(gen.decode(p)[0]['values'])
            if rng.random() < .45:
                inside[n] = gm
                continue
            r = w.cli(['-g', p])
            if not o.check(r.ok, 'two-geopotential', lambda: r.brief()):
                return
    two = rng.random() < .5
    zs = list(inside)
    if rng.random() < .5:
        zs.reverse()
    for ms in msgs:
        if rng.random() < .3:
            rng.shuffle(ms)
    if two:
        p1, p2 = (gen.write_grib(w.path(f'{f}.grb'), around(rng, m, [z])) for f, m, z in (('a', msgs[0], inside[0]), ('b', msgs[1], inside[1])))
        paths, args = [p1, p2], ['-I', p2]
    else:
        both = msgs[0] + msgs[1]
        order = rng.random()
        if order < .4:
            # by step, as forecasts are stored
            both = [m for _, m in sorted(zip(steps_of(msgs[0]) + steps_of(msgs[1]), both), key=lambda x: x[0])]
        elif order < .6:
            # any order that starts with the first resolution
            rest = both[1:]
            rng.shuffle(rest)
            both = both[:1] + rest
        p1 = gen.write_grib(w.path('a.grb'), around(rng, both, zs))
        paths, args = [p1], []
    dec = [[], []]
    for p in paths:
        for m in gen.decode(p):
            if m['short'] == 'z':
                continue
            dec[0 if m['values'].size == srcs[0].n else 1].append(m)
    for n in (0, 1):
        series.append({m['end']: m['values'] for m in dec[n]})
    series[0] = {k: v for k, v in series[0].items() if k <= C}
    E_ = C + A * n2
    if conv:
        f = {'tomm': lambda v: v * 1000, 'k2c': lambda v: v - 273.15}[conv]
        series = [{k: f(v) for k, v in s.items()} for s in series]
    if kind == 'accumulation':
        u = 24 if unit is None else unit
        want = [c03.reference(series[0], A, S, C, u, None), c03.reference(series[1], A, C + A, E_, u, None)]
    elif kind == 'none':
        want = [[(t, s[t]) for t in sorted(s) if t >= (S or 0) and t <= (E_ if E is None else E)] for s in series]
        want[1] = [x for x in want[1] if x[0] > C]
    elif kind == 'instantaneous':
        want = [c04.reference(series[0], A, S, C), c04.reference(series[1], A, C + A, E_)]
        want[1] = [x for x in want[1] if x[0] > C]
    else:
        want = [c02.reference(series[0], A, S, C, kind == 'halfweights'), c02.reference(series[1], A, C + A, E_, kind == 'halfweights')]
    maps, first = [], 0
    for n in (0, 1):
        for t, v in want[n]:
            if conv == 'tomm':
                v = np.where(v < 0, 0, v)
            m = v[idx[n]].astype(float)
            if corr:
                m = m + geos[n][idx[n]] * .01
            m[tgt.clone_missing] = np.nan
            maps.append((t, m))
            o.count('first_maps' if n == 0 else 'second_maps')
    fmt = rng.choice(['netcdf', 'pcraster'])
    param = {}
    if conv:
        param['@applyConversion'] = conv
    if corr:
        dem = gen.write_pcr(w.path('dem.map'), np.zeros(shape), tgt.gt)
        param.update({'@correctionFormula': 'p+gem+dem', '@gem': 'z*0.01', '@demMap': dem})
    sc.place(rng, param, args, tstart=S, tend=E)
    agg = None if kind == 'none' else sc.agg_conf(A, 'average' if kind == 'halfweights' else kind, half=kind == 'halfweights')
    what = f'{kind} {short} A={A} steps {steps1}+{steps2} change {C} S={S} E={E} unit={unit} {conv} corr={corr} inside={[g is not None for g in inside]} {mode} {fmt} {"two files" if two else "one file"}'
    o.case = dict(what=what, grids=[g.key() for g in grids])
    r = sc.execute(w, p1, tgt, short, mode, agg, param, {'@unitTime': unit} if unit else None, None, fmt, args=args)
    good = sc.nc_or_pcr_check(o, r, maps, 'two', what, fmt, nc_tol=1e-5 if mode.endswith('invdist') else 1e-9)
    o.count('two_files' if two else 'one_file')
    if kind == 'none':
        o.count('not_aggregated')
    if n2 == 1:
        o.count('single_second')
    if E is None:
        o.count('no_end')
    if corr:
        o.count('corrected')
        o.count('geopotential_inside', sum(g is not None for g in inside))
    if with_mask:
        o.count('with_missing')
    o.sig(kind, short, two, dt, dt2, A, C // A, n2, S, E is None, conv, corr, mode, fmt, with_mask, bool(extra), k1 > k2, good)


def around(rng, msgs, zs):
    # geopotentials may be anywhere in the file
    zs = [z for z in zs if z is not None]
    k = rng.choice([0, len(msgs)])
    return msgs[:k] + zs + msgs[k:]


def steps_of(ms):
    import eccodes as ec
    out = []
    for m in ms:
        h = ec.codes_new_from_message(m)
        out.append(ec.codes_get(h, 'endStep'))
        ec.codes_release(h)
    return out
