"""C03 accumulation against a reference built from the stored messages."""
import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 1600, 6400, 8
LEVEL = 'exploration'
RULE = ('distinct (edition, coarse/fine/irregular steps, step 0 present, aggregation step, unit time, start kind, end kind, zero start '
        'option, missing pattern, format, mode) combinations whose whole output was compared with the reference')
REQUIRE = {'maps': 300, 'interpolated': 40, 'no_step0': 40, 'forced_zero': 30, 'with_missing': 40, 'start_given': 40}
ASSUMPTIONS = ['end step is a step present in the file', 'start is absent, 0 or at least one aggregation step']


def series_at(series, t):
    if t in series:
        return series[t]
    ks = sorted(series)
    if t == 0:
        return np.zeros_like(series[ks[0]])
    s = dict(series)
    if 0 not in s:
        s[0] = np.zeros_like(series[ks[0]])
    ks = sorted(s)
    a = max(k for k in ks if k < t)
    b = min(k for k in ks if k > t)
    return s[a] + (s[b] - s[a]) * ((t - a) / (b - a))


def reference(series, A, S, E, unit, force):
    E = max(series) if E is None else E
    S = S or A
    out = []
    for end in range(S, E + 1, A):
        lo = np.zeros_like(series[max(series)]) if (end == A and force) else series_at(series, end - A)
        out.append((end, (series_at(series, end) - lo) * unit / A))
    return out


def run(w, rng, o, i):
    g = sc.pick_grid(rng, editions=(1,))
    src = sc.Source(g)
    pattern = rng.choice(['fine', 'fine', 'coarse', 'irregular'])
    step0 = rng.random() < .5
    if pattern == 'irregular':
        steps, t = [0], 0
        for _ in range(rng.randint(3, 9)):
            t += rng.choice([1, 2, 3, 6, 6, 12])
            steps.append(t)
        A = rng.choice([1, 2, 3, 5, 6, 12])
    else:
        dt = rng.choice([1, 3, 6, 12])
        steps = [k * dt for k in range(rng.randint(3, 10))]
        A = dt * rng.choice([1, 1, 2, 3, 4]) if pattern == 'fine' else rng.choice([a for a in (1, 2, 3, 4, 6, 8) if a < dt] or [1])
    if not step0:
        steps = steps[1:]
    last = steps[-1]
    if A > last:
        A = last
    S = rng.choice([None, 0, A] + [s for s in (A + 1, 2 * A, 3 * A, A + 3) if s <= last])
    E = rng.choice([None, None] + [s for s in steps if s >= max(S or A, A)])
    unit = rng.choice([None, 24, 6, 1, 12, '24'])
    force = rng.choice([None, None, 'y', 'true', 'True', 'false', 'False', 'no', '0', 'yes'])
    short = rng.choice(['tp', 'cp', 'lsp', 'ssr', 'sro'])
    with_mask, per_step = rng.random() < .45, rng.random() < .6
    base = sc.random_mask(rng, w.np, src.n) if with_mask else None
    msgs, anymask, acc = [], False, np.zeros(src.n)
    mono = rng.random() < .7
    mag = rng.choice([1., 1e-3, 50., 1e-8, 1e7])
    for s in steps:
        acc = acc + w.np.rand(src.n) * mag if mono else (w.np.rand(src.n) - .3) * mag
        m = base if not per_step else (sc.random_mask(rng, w.np, src.n) if with_mask else None)
        anymask |= m is not None
        # the message of hour 0 is instantaneous in some files
        msgs.append(gen.message(g, short, (0, s), 'instant' if s == 0 and g.edition == 1 and rng.random() < .4 else None, acc, mask=m))
    if rng.random() < .5:
        rng.shuffle(msgs)
    if rng.random() < .4:
        for s in rng.sample(steps, min(3, len(steps))):
            msgs.insert(rng.randrange(len(msgs) + 1), gen.message(g, '2t', (s, s), None, sc.field(w.np, src.n)))
    p = gen.write_grib(w.path('in.grb'), msgs)
    fmt = rng.choice(['netcdf', 'netcdf', 'pcraster'])
    mode = sc.node_mode(rng, src)
    tgt = sc.node_target(w, rng, src)
    param, args = {}, []
    sc.place(rng, param, args, tstart=S, tend=E)
    outp = {} if unit is None else {'@unitTime': unit}
    series = sc.decoded_series(p, short)
    forced = force in ('y', 'true', 'True', 'yes')
    want = [(e, sc.on_target(tgt, v)) for e, v in reference(series, A, S, E, int(unit or 24), forced)]
    o.case = dict(grid=g.key(), steps=steps, A=A, S=S, E=E, unit=unit, force=force, short=short, fmt=fmt, mode=mode, mask=anymask, args=args, param=param)
    r = sc.execute(w, p, tgt, short, mode, sc.agg_conf(A, 'accumulation', force=force), param, outp, None, fmt, args)
    if not want:
        return
    o.count('no_step0', not step0)
    o.count('forced_zero', forced)
    o.count('with_missing', anymask)
    o.count('start_given', bool(S))
    o.count('interpolated', any(e not in series or (e - A and e - A not in series) for e, _ in want))
    allv = np.concatenate([v for v in series.values()])
    scale = np.nanmax(np.abs(allv)) * int(unit or 24) / A if np.isfinite(allv).any() else 1.
    if sc.nc_or_pcr_check(o, r, want, 'accumulation', 'accumulation', fmt, scale=scale):
        o.sig(g.edition, pattern, step0, A, unit, 'S' if S else ('0' if S == 0 else '-'), 'E' if E else '-', forced, anymask, fmt, mode)
        o.sample(dict(steps=steps, A=A, S=S, E=E, unit=unit, force=force, n=len(want)))
