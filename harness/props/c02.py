"""C02 average aggregation against an hour-by-hour reference."""
import bisect
import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 1600, 6400, 8
LEVEL = 'exploration'
RULE = ('distinct (grid edition, step pattern, aggregation step, start kind, end kind, half weights, missing pattern, format, '
        'mode, conversion) combinations whose whole output was compared with the reference')
REQUIRE = {'maps': 300, 'half': 20, 'with_missing': 40, 'irregular': 20, 'start_given': 40, 'start_default': 40}
ASSUMPTIONS = ['end step and (half weights) window ends are steps present in the file', 'start is absent, 0 or at least one aggregation step', 'messages averaged over a range: periods start at message boundaries']


def reference(series, A, S, E, half):
    """[(window end, flat)]"""
    keys = sorted(series)
    E = keys[-1] if E is None else E
    S = S or A
    usable = [k for k in keys if k <= E]
    out = []
    end = S
    while end <= E:
        lo = end - A
        if half:
            used = [k for k in usable if lo <= k <= end]
            n = len(used) - 1
            w = [A / n] * len(used)
            w[0] /= 2
            w[-1] /= 2
            v = sum(wi * series[k] for wi, k in zip(w, used)) / sum(w)
        else:
            v = 0.
            for h in range(lo + 1, end + 1):
                v = v + series[usable[bisect.bisect_left(usable, h)]]
            v = v / A
        out.append((end, v))
        end += A
    return out


def run(w, rng, o, i):
    g = sc.pick_grid(rng)
    src = sc.Source(g)
    half = rng.random() < .3
    regular = half or rng.random() < .6
    first = rng.choice([0, 0, 0, 1])
    if regular:
        dt = rng.choice([1, 2, 3, 6, 12])
        n = rng.randint(3, 12)
        steps = [k * dt for k in range(n + 1)]
        if first and not half:
            steps = steps[1:]
    else:
        steps, t = [0] if not first else [], 0
        for _ in range(rng.randint(3, 10)):
            t += rng.choice([1, 2, 3, 3, 6, 6, 12])
            steps.append(t)
    last = steps[-1]
    if half:
        A = dt * rng.choice([k for k in range(1, 9) if k * dt <= last])
        S = rng.choice([None, 0] + [k * dt for k in range(A // dt, len(steps)) if k * dt >= A][:4])
    else:
        A = rng.choice([a for a in (1, 2, 3, 5, 6, 8, 12, 24) if a <= last])
        S = rng.choice([None, 0] + [s for s in {A, A + 1, 2 * A, A + 3} if s <= last])
    ends = [s for s in steps if s >= max(S or A, A)]
    E = rng.choice([None] + ends) if ends else None
    if not ends:
        S = None
    short = rng.choice(['2t', '2t', '10u', 'ssr'])
    avg_type = rng.random() < .2 and g.edition == 1 and regular and short != 'ssr' and steps[0] == 0 and len(steps) > 3
    if short == 'ssr':
        short = '2d'
    with_mask = rng.random() < .45
    per_step = rng.random() < .6
    base_mask = sc.random_mask(rng, w.np, src.n) if with_mask else None
    msgs, anymask = [], False
    lo, hi = rng.choice([(250., 310.), (-40., 40.), (0., 1e-3), (1e4, 1e5), (-1e-8, 1e-7), (1e7, 3e7)])
    if avg_type:
        steps = steps[1:]
        half = False
        A = rng.choice([k * dt for k in range(1, len(steps) + 1)])
        S = rng.choice([None, 0] + [k * dt for k in range(1, len(steps) + 1) if A <= k * dt <= steps[-1]][:5])
        E = rng.choice([None] + [s for s in steps if s >= max(S or A, A)])
    for s in steps:
        m = base_mask if not per_step else (sc.random_mask(rng, w.np, src.n) if with_mask else None)
        anymask |= m is not None
        prev = max([x for x in [0] + steps if x < s] or [0])
        msgs.append(gen.message(g, short, (prev if avg_type else s, s), 'avg' if avg_type else None, sc.field(w.np, src.n, lo, hi), mask=m))
    if rng.random() < .5:
        rng.shuffle(msgs)
    # bystanders of another parameter
    if rng.random() < .4:
        for s in rng.sample(steps, min(3, len(steps))):
            msgs.insert(rng.randrange(len(msgs) + 1), gen.message(g, 'swvl1', (s, s), None, sc.field(w.np, src.n)))
    p = gen.write_grib(w.path('in.grb'), msgs)
    fmt = rng.choice(['netcdf', 'netcdf', 'pcraster'])
    mode = sc.node_mode(rng, src)
    tgt = sc.node_target(w, rng, src)
    param, conv = {}, lambda x: x
    if short in ('2t', '2d') and rng.random() < .3:
        param['@applyConversion'] = 'k2c'
        conv = lambda x: x - 273.15
    args = sc.place(rng, param, [], tstart=S, tend=E)
    agg = sc.agg_conf(A, 'average', half)
    o.case = dict(grid=g.key(), steps=steps, A=A, S=S, E=E, half=half, short=short, avg=avg_type, fmt=fmt, mode=mode, mask=anymask, args=args, param=param)
    series = sc.decoded_series(p, short)
    want = [(e, sc.on_target(tgt, conv(v))) for e, v in reference(series, A, S, E, half)]
    r = sc.execute(w, p, tgt, short, mode, agg, param, {'@unitTime': 24}, None, fmt, args)
    if not want:
        return
    o.count('half', half)
    o.count('irregular', not regular)
    o.count('with_missing', anymask)
    o.count('start_given', bool(S))
    o.count('start_default', not S)
    ok = sc.nc_or_pcr_check(o, r, want, 'average', 'average', fmt)
    if ok:
        o.sig(g.edition, 'reg' if regular else 'irr', A, 'S' if S else ('0' if S == 0 else '-'), 'E' if E else '-', half, anymask, fmt, mode, bool(param.get('@applyConversion')), avg_type)
        o.sample(dict(steps=steps, A=A, S=S, E=E, half=half, first=float(np.nanmean(want[0][1])) if np.isfinite(want[0][1]).any() else None))
