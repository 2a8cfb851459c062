"""C04 instantaneous aggregation: value at each output step."""
import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 1600, 6400, 8
LEVEL = 'exploration'
RULE = ('distinct (edition, regular/irregular steps, step 0 present, aggregation step, start, end kind, stepType, missing, format, mode) '
        'combinations whose whole output was compared with the reference')
REQUIRE = {'maps': 300, 'filled_from_next': 30, 'no_step0': 30, 'with_missing': 40, 'start_given': 40, 'no_aggregation': 30, 'averages': 30}
ASSUMPTIONS = ['end step is a step present in the file']


def reference(series, A, S, E, period=None):
    E = max(series) if E is None else E
    S = S or 0
    first = S - A if S - A > 0 else S
    if period:
        # averages: the first one that starts at S
        first = S + period
    ks = sorted(series)
    out = []
    for t in range(first, E + 1, A):
        if t in series:
            v = series[t]
        elif t == 0:
            v = np.zeros_like(series[ks[0]])
        else:
            v = series[min(k for k in ks if k > t)]
        out.append((t, v))
    return out


def run(w, rng, o, i):
    g = sc.pick_grid(rng)
    src = sc.Source(g)
    step0 = rng.random() < .6
    regular = rng.random() < .6
    if regular:
        dt = rng.choice([1, 2, 3, 6, 12])
        steps = [k * dt for k in range(rng.randint(3, 12))]
        A = rng.choice([dt, dt, 2 * dt, 3 * dt, 1, 4])
    else:
        steps, t = [0], 0
        for _ in range(rng.randint(3, 10)):
            t += rng.choice([1, 2, 3, 6, 6, 12])
            steps.append(t)
        A = rng.choice([1, 2, 3, 5, 6, 12])
    if not step0:
        steps = steps[1:]
    last = steps[-1]
    S = rng.choice([None, 0] + [s for s in (A, 2 * A, 3 * A, A + 1) + tuple(steps[:3]) if s <= last])
    E = rng.choice([None, None] + [s for s in steps if s >= max(S or 0, 1)])
    agg = rng.random() < .8
    # averages of the hours since the previous step
    avg = g.edition == 1 and regular and agg and len(steps) > 3 and rng.random() < .25
    if avg:
        steps = [k * dt for k in range(1, len(steps) + 1)]
        S = rng.choice([None, 0, dt, 2 * dt])
        A = rng.choice([dt, 2 * dt, 1, max(dt // 2, 1)])
        E = rng.choice([None] + [s for s in steps if s > (S or 0)])
    short = rng.choice(['2t', '10u', '2d', 'swvl1'][:2 if avg else 4])
    with_mask, per_step = rng.random() < .45, rng.random() < .6
    base = sc.random_mask(rng, w.np, src.n) if with_mask else None
    ranges = rng.choice([[(250, 300), (-5, 5)]] * 4 + [[(-1e-9, 1e-8)], [(1e7, 2e7)]])
    msgs, anymask = [], False
    for s in steps:
        m = base if not per_step else (sc.random_mask(rng, w.np, src.n) if with_mask else None)
        anymask |= m is not None
        if avg and s == dt and rng.random() < .4:
            # the values of hour 0 are no average
            msgs.append(gen.message(g, short, (0, 0), None, sc.field(w.np, src.n, *rng.choice(ranges)), mask=m))
        msgs.append(gen.message(g, short, (s - dt if avg else s, s), 'avg' if avg else None, sc.field(w.np, src.n, *rng.choice(ranges)), mask=m))
    if rng.random() < .5:
        rng.shuffle(msgs)
    if rng.random() < .4:
        for s in rng.sample(steps, min(3, len(steps))):
            msgs.insert(rng.randrange(len(msgs) + 1), gen.message(g, '10v', (s, s), None, sc.field(w.np, src.n)))
    p = gen.write_grib(w.path('in.grb'), msgs)
    fmt = rng.choice(['netcdf', 'netcdf', 'pcraster'])
    mode = sc.node_mode(rng, src)
    tgt = sc.node_target(w, rng, src)
    param, args = {}, []
    sc.place(rng, param, args, tstart=S, tend=E)
    series = sc.decoded_series(p, short)
    if agg:
        flat = reference(series, A, S, E, dt if avg else None)
    else:
        flat = [(k, series[k]) for k in sorted(series) if (S or 0) <= k <= (max(series) if E is None else E)]
    want = [(e, sc.on_target(tgt, v)) for e, v in flat]
    o.case = dict(grid=g.key(), steps=steps, A=A, S=S, E=E, agg=agg, short=short, fmt=fmt, mode=mode, mask=anymask, avg=avg, args=args, param=param)
    r = sc.execute(w, p, tgt, short, mode, sc.agg_conf(A, 'instantaneous') if agg else None, param, None, None, fmt, args)
    if not want:
        return
    o.count('averages', avg)
    o.count('no_step0', not step0)
    o.count('with_missing', anymask)
    o.count('start_given', bool(S))
    o.count('no_aggregation', not agg)
    o.count('filled_from_next', agg and any(e not in series for e, _ in want))
    if sc.nc_or_pcr_check(o, r, want, 'instant', 'instantaneous' if agg else 'no aggregation', fmt):
        o.sig(g.edition, regular, step0, A, 'S' if S else ('0' if S == 0 else '-'), 'E' if E else '-', anymask, fmt, mode, agg)
        o.sample(dict(steps=steps, A=A, S=S, E=E, agg=agg, out=[e for e, _ in want][:8]))
