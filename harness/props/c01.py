"""C01 only the requested messages decide the result."""
import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 1300, 5200, 8
LEVEL = 'exploration'
RULE = ('distinct (edition, selectors given and where, kinds of unrelated messages mixed in, manipulation, format, interpolation) combinations in '
        'which the output of the mixed file was compared with the output of a file holding only the requested messages')
REQUIRE = {'maps': 300, 'unrelated_messages': 500, 'sel_level': 25, 'sel_date': 25, 'sel_time': 25, 'sel_member': 25, 'sel_step': 30, 'level_zero': 10, 'member_zero': 4, 'accumulated_with_start': 15, 'reference_maps': 60}
ASSUMPTIONS = ['messages of the same shortName that differ in a key are only mixed in when that key is selected']

USER_PARAMS = {k: {'@description': k, '@shortName': k, '@unit': u} for k, u in (('t', 'K'), ('u', 'm/s'), ('q', 'kg/kg'))}


def run(w, rng, o, i):
    gen.write_json(w.pyg2p_home + '/parameters.json', dict({'description': 'x'}, **USER_PARAMS))
    ed = rng.choice([1, 2])
    kind = rng.choice(['none', 'none', 'instantaneous', 'average', 'accumulation'])
    cum = kind == 'none' and rng.random() < .35
    if kind == 'accumulation' or cum:
        ed = 1
    g = sc.pick_grid(rng, editions=(ed,))
    src = sc.Source(g)
    g2 = sc.pick_grid(rng, editions=(ed,))
    src2 = sc.Source(g2)
    levelled = kind != 'accumulation' and not cum and rng.random() < .5
    short = rng.choice(['tp', 'cp', 'ssr']) if kind == 'accumulation' or cum else rng.choice(['t', 'u', 'q'] if levelled else ['2t', '10u', '2d'])
    lev = rng.choice([1000, 850, 500, 100, 10, 0]) if levelled else 0
    date = rng.choice([20240115, 20231231, 20200229])
    time = rng.choice([0, 0, 1200, 1200, 600, 1800])
    ens = rng.random() < .4
    member = rng.choice([0, 1, 2, 10, 50, 101, 150]) if ens else None
    dt = rng.choice([3, 6, 6, 12])
    steps = [k * dt for k in range(rng.randint(2, 7))]
    if kind != 'none' and len(steps) < 3:
        steps.append(steps[-1] + dt)
    # selectors
    sel = {}
    if levelled:
        sel['level'] = lev
    for k, v in (('date', date), ('time', time)):
        if rng.random() < .5:
            sel[k] = v
    if ens and rng.random() < .8:
        sel['member'] = member
    A = dt * rng.choice([1, 2]) if kind != 'none' else None
    S = rng.choice([None, 0, A] + [s for s in steps[:-1] if s > A] if kind != 'none' else [None, 0] + steps[:-1])
    E = rng.choice([None] + [s for s in steps if s >= max(S or 0, A or 0) and s > 0])

    def mk(grid, source, s, sh=short, lv=lev, d=date, t=time, m=member, lt=None):
        rngst = (0, s) if gen.PARAMS[sh][1] == 'accum' else (s, s)
        return gen.message(grid, sh, rngst, None, sc.field(w.np, source.n, 1, 200), mask=sc.random_mask(rng, w.np, source.n),
                           level=lv, level_type='isobaricInhPa' if sh in ('t', 'u', 'q') else None, date=d, time=t, member=m)
    wanted = {s: mk(g, src, s) for s in steps}
    extra, kinds = [], set()
    for _ in range(rng.randint(1, 10)):
        k = rng.choice(['short', 'short'] + list(sel))
        og, osrc = (g, src) if rng.random() < .6 else (g2, src2)
        s = rng.choice(steps + [steps[-1] + dt, steps[-1] + 5, 1])
        if k == 'short':
            other = rng.choice([x for x in ('2t', '10v', 't', 'u', 'tp', 'z', 'sd') if x != short and x.upper() != short.upper() and not x == short + 'var'])
            if other in ('tp',) and ed == 2:
                other = '10v'
            extra.append(mk(og, osrc, max(s, 1), sh=other, lv=lev if other in ('t', 'u') else 0, m=rng.choice([None, member, 3])))
        elif k == 'level':
            extra.append(mk(og, osrc, s, lv=rng.choice([x for x in (1000, 850, 500, 100, 10, 0) if x != lev])))
        elif k == 'date':
            extra.append(mk(og, osrc, s, d=rng.choice([x for x in (20240115, 20240116, 20231231, 20200229) if x != date])))
        elif k == 'time':
            extra.append(mk(og, osrc, s, t=rng.choice([x for x in (0, 600, 1200, 1800) if x != time])))
        elif k == 'member':
            extra.append(mk(og, osrc, s, m=rng.choice([x for x in (0, 1, 2, 3, 10, 50, 50, 110, 150, (member + 100) % 200, (member + 100) % 200) if x != member])))
        kinds.add(k)
    if kind == 'none' and not cum and ed == 1 and S and rng.random() < .6:
        # averages over periods that are not within the window
        for _ in range(rng.randint(1, 3)):
            last = steps[-1] if E is None else E
            a = rng.choice([x for x in range(0, last + 1, 3) if x < S])
            b = rng.choice([x for x in (S, last, a + 1) if x > a])
            if E is not None and rng.random() < .4:
                a, b = S, E + rng.choice([1, dt])
            extra.append(gen.message(g, short, (a, b), 'avg', sc.field(w.np, src.n, 1, 200), level=lev, level_type='isobaricInhPa' if levelled else None, date=date, time=time, member=member))
            kinds.add('step')
            o.count('sel_step')
    mixed = list(wanted.values()) + extra
    if rng.random() < .8:
        rng.shuffle(mixed)
    else:
        mixed = extra + list(wanted.values())
    pm = gen.write_grib(w.path('mixed.grb'), mixed)
    drop = rng.random() < .5
    clean = [m for s, m in wanted.items() if not (drop and E and s > E)]
    if cum:
        clean = [m for s, m in wanted.items() if s <= (steps[-1] if E is None else E)]
    elif kind == 'none':
        clean = [m for s, m in wanted.items() if (S or 0) <= s <= (steps[-1] if E is None else E)]
    pc = gen.write_grib(w.path('clean.grb'), clean)

    param, args, where = {}, [], set()
    sc.place(rng, param, args, tstart=S, tend=E, dataDate=sel.get('date'))
    t = sel.get('time')
    if t is not None:
        if t in (0, 1200) and rng.random() < .5:
            args += ['-T', t]
            where.add('T')
        else:
            param['@dataTime'] = rng.choice([t, str(t)])
    if 'level' in sel:
        param['@level'] = rng.choice([lev, str(lev)])
    if 'member' in sel:
        if rng.random() < .6:
            args += ['-m', member]
            where.add('m')
        else:
            param['@perturbationNumber'] = rng.choice([member, str(member)])
    fmt = rng.choice(['netcdf', 'netcdf', 'pcraster'])
    mode = sc.node_mode(rng, src)
    tgt = sc.node_target(w, rng, src)
    agg = sc.agg_conf(A, kind, half=kind == 'average' and rng.random() < .4) if kind != 'none' else None
    o.case = dict(grid=g.key(), grid2=g2.key(), short=short, sel=sel, kinds=sorted(kinds), steps=steps, S=S, E=E, agg=agg, args=args, param=param,
                  member=member, date=date, time=time, fmt=fmt, mode=mode)
    a = sc.execute(w, pc, tgt, short, mode, agg, param, None, None, fmt, args, outdir='clean')
    w.reset_home()
    gen.write_json(w.pyg2p_home + '/parameters.json', dict({'description': 'x'}, **USER_PARAMS))
    b = sc.execute(w, pm, tgt, short, mode, agg, param, None, None, fmt, args, outdir='mixed')
    o.check(a.ok, 'selection-clean-run', f'file with only the requested messages: {a.res.brief()}')
    o.check(b.ok, 'selection-run', f'mixed file: {b.res.brief()}')
    if not (a.ok and b.ok):
        return
    ok = o.check(a.steps() == b.steps(), 'selection-steps', f'maps from the mixed file {b.steps()}, from the requested messages alone {a.steps()}')
    for (s, x), (_, y) in zip(a.frames, b.frames):
        ok &= o.check(sc.close(y, x, 1e-12, 1e-12), 'selection-value', lambda: f'{kind} {s}: {sc.diff(y, x)}')
        o.count('maps')
    if fmt == 'netcdf' and a.raw and b.raw:
        for k in ('time_units', 'time_calendar', 'attrs', 'var', 'dims'):
            ok &= o.check(str(a.raw[k]) == str(b.raw[k]), 'selection-metadata', f'{k}: mixed {b.raw[k]} alone {a.raw[k]}')
        d = str(date)
        o.check(b.raw['time_units'].endswith(f'{d[:4]}-{d[4:6]}-{d[6:]} {time // 100:02d}:00') or f'{d[:4]}-{d[4:6]}-{d[6:]}' in b.raw['time_units'],
                'selection-reference-time', f'{b.raw["time_units"]} for {date} {time}')
    if kind == 'none' and not (cum and S):
        want = [(s, sc.on_target(tgt, gen.decode(w_one(w, wanted[s]))[0]['values'])) for s in steps if (S or 0) <= s <= (steps[-1] if E is None else E)]
        ok &= sc.nc_or_pcr_check(o, b, want, 'selection-reference', 'mixed file', fmt)
        o.count('reference_maps', len(want))
    o.count('accumulated_with_start', bool(S) and gen.PARAMS[short][1] == 'accum')
    o.count('unrelated_messages', len(extra))
    for k in sel:
        o.count('sel_' + k)
    o.count('level_zero', sel.get('level') == 0)
    o.count('member_zero', sel.get('member') == 0)
    if ok:
        o.sig(ed, tuple(sorted(sel)), tuple(sorted(where)), tuple(sorted(kinds)), kind, fmt, mode)
        o.sample(dict(short=short, sel=sel, kinds=sorted(kinds), steps=steps, S=S, E=E, agg=agg))


def w_one(w, msg):
    return gen.write_grib(w.path('one.grb'), [msg])
