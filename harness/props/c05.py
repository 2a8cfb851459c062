"""C05 unit conversion and cut-off of negative values."""
import numpy as np
import gen
import scene as sc
import c02
import c03
import c04

QUICK, THOROUGH, WORKERS = 1600, 6400, 8
LEVEL = 'exploration'
RULE = ('distinct (conversion formula, cut-off setting, origin of the parameter definition, aggregation, sign pattern, missing pattern, format) combinations '
        'whose whole output was compared with the reference')
REQUIRE = {'maps': 300, 'cut_cells': 300, 'negative_kept': 300, 'user_defined': 40, 'with_missing': 60, 'no_conversion': 20, 'unit_checked': 60}
ASSUMPTIONS = ['stored values differ from the missing value number of the GRIB message']

# what the shipped configuration and its documentation promise: (short, id) -> (function, cut)
SHIPPED = {('2t', 'k2c'): (lambda x: x - 273.15, False, 'C'), ('2d', 'k2c'): (lambda x: x - 273.15, False, 'C'),
           ('tp', 'cut'): (lambda x: x, True, 'm'), ('tp', 'tomm'): (lambda x: x * 1000, True, 'mm'), ('cp', 'tomm'): (lambda x: x * 1000, True, 'mm'),
           ('lsp', 'tomm'): (lambda x: x * 1000, True, 'mm'), ('sro', 'm2mm'): (lambda x: x * 1000, True, 'mm'), ('e', 'tomm'): (lambda x: -x * 1000, True, 'mm'),
           ('slhf', 'tommd'): (lambda x: x * -0.0353, True, 'mm/d'), ('slhf', 'tommh'): (lambda x: x * -0.00147, True, 'mm/h'),
           ('sd', 'tomm'): (lambda x: 1000 * x, False, 'mm')}
FORMULAS = [('x=x', lambda x: x), ('x=x-273.15', lambda x: x - 273.15), ('x=x*1000', lambda x: x * 1000), ('x=-x*1000', lambda x: -x * 1000),
            ('x=1000*x', lambda x: 1000 * x), ('x=x*9/5-459.67', lambda x: x * 9 / 5 - 459.67), ('x=(5/9)*x+3', lambda x: 5 / 9 * x + 3),
            ('x=x*(-0.13)**2', lambda x: x * .13 ** 2), ('x=x/5466 - (x**2)', lambda x: x / 5466 - x ** 2), ('x=x/3600', lambda x: x / 3600),
            ('x=-x', lambda x: -x), ('x=where(x>1,x,0-x)', lambda x: np.where(np.isnan(x), np.nan, np.where(x > 1, x, -x))),
            ('x=0*x+7.5', lambda x: 0 * x + 7.5), ('x=where(x==0,5,x)', lambda x: np.where(x == 0, 5., x)), ('x=x+0.5', lambda x: x + .5)]


def run(w, rng, o, i):
    g = sc.pick_grid(rng, editions=(1,))
    src = sc.Source(g)
    user = rng.random() < .5
    if rng.random() < .12:
        short, cid, f, cut, unit = rng.choice(['2t', 'tp', 'sd']), None, (lambda x: x), False, None
    elif not user:
        (short, cid), (f, cut, unit) = rng.choice(list(SHIPPED.items()))
    else:
        short = rng.choice(['2t', 'tp', 'slhf', 'q', 'sd', 'cp'])
        txt, f = rng.choice(FORMULAS)
        cut = rng.random() < .5
        cid, unit = rng.choice(['mine', 'conv_1', 'tomm']), rng.choice(['zz', 'g/d', '1'])
        conv = {'@function': txt, '@id': cid, '@unit': unit}
        if cut:
            conv['@cutOffNegative'] = rng.choice([True, 'True', 'true', 'T', 'Yes', 'y'])
        elif rng.random() < .6:
            conv['@cutOffNegative'] = rng.choice([False, 'False', 'no', 'N'])
        others = [{'@function': 'x=x*77-3', '@id': 'other', '@unit': 'o', '@cutOffNegative': True}, {'@function': 'x=x*5', '@id': cid + rng.choice(['d', '2', '_x']), '@unit': 'o3'},
                  {'@function': 'x=x*3+1', '@id': rng.choice([cid[:-1], 'x' + cid, cid.upper()]), '@unit': 'o4'}]
        if rng.random() < .5:
            lst = others + [conv]
            rng.shuffle(lst)
            conv = lst
        gen.write_json(w.pyg2p_home + '/parameters.json', {'description': 'mine', short: {
            '@description': 'my own', '@shortName': short, '@unit': 'orig', 'Conversion': conv}})
    accum = gen.PARAMS[short][1] == 'accum'
    kind = rng.choice(['none', 'accumulation', 'accumulation']) if accum else rng.choice(['none', 'average', 'instantaneous'])
    dt = rng.choice([3, 6, 12])
    steps = [k * dt for k in range(rng.randint(3, 6))]
    if rng.random() < .3:
        steps = steps[1:]
    A = dt * rng.choice([1, 2])
    sign = rng.choice(['pos', 'neg', 'mix', 'mix'])
    lo, hi = {'pos': (.5, 40), 'neg': (-40, -.5), 'mix': (-20, 20)}[sign]
    if cid == 'k2c' and sign != 'neg':
        lo, hi = lo + 263, hi + 263
    elif cid != 'k2c':
        mag = sc.magnitude(rng)
        lo, hi = lo * mag, hi * mag
    masks = rng.random() < .5
    msgs, anymask = [], False
    for s in steps:
        m = sc.random_mask(rng, w.np, src.n) if masks else None
        anymask |= m is not None
        v = sc.field(w.np, src.n, lo, hi)
        if rng.random() < .3:
            v[w.np.randint(src.n)] = 0
        msgs.append(gen.message(g, short, (0, s) if accum else (s, s), None, v, mask=m))
    p = gen.write_grib(w.path('in.grb'), msgs)
    tgt = sc.node_target(w, rng, src)
    fmt = rng.choice(['netcdf', 'netcdf', 'pcraster'])
    mode = sc.node_mode(rng, src)
    half = kind == 'average' and rng.random() < .3 and steps[0] == 0
    agg = None if kind == 'none' else sc.agg_conf(A, kind, half=half)
    param = {'@applyConversion': cid} if cid else {}
    series = {s: f(v) for s, v in sc.decoded_series(p, short).items()}
    if kind == 'none':
        flat = sorted(series.items())
    elif kind == 'average':
        flat = c02.reference(series, A, None, None, half)
    elif kind == 'accumulation':
        flat = c03.reference(series, A, None, None, 24, False)
    else:
        flat = c04.reference(series, A, None, None)
    want = []
    for e, v in flat:
        if cut:
            o.count('cut_cells', int((np.nan_to_num(v) < 0).sum()))
            v = np.where(v < 0, 0., v)
        else:
            o.count('negative_kept', int((np.nan_to_num(v) < 0).sum()))
        want.append((e, sc.on_target(tgt, v)))
    if not want:
        return
    o.case = dict(grid=g.key(), short=short, cid=cid, cut=cut, user=user, kind=kind, A=A, steps=steps, sign=sign, fmt=fmt, mode=mode, half=half)
    r = sc.execute(w, p, tgt, short, mode, agg, param, None, None, fmt)
    scale = max([abs(lo), abs(hi)] + [np.nanmax(np.abs(v)) for v in series.values() if np.isfinite(v).any()]) * 24 / A
    ok = sc.nc_or_pcr_check(o, r, want, 'conversion', f'{short} {cid} {kind}', fmt, scale=scale)
    if ok and fmt == 'netcdf' and unit:
        ok &= o.check(r.raw['attrs'].get('units') == unit, 'conversion-unit', f'unit {r.raw["attrs"].get("units")}, conversion says {unit}')
        o.count('unit_checked')
    o.count('user_defined', bool(user and cid))
    o.count('no_conversion', cid is None)
    o.count('with_missing', anymask)
    if ok:
        o.sig(short, cid, cut, user and cid, kind, half, sign, anymask, fmt)
        o.sample(dict(short=short, cid=cid, cut=cut, kind=kind, sign=sign, A=A, steps=steps))
