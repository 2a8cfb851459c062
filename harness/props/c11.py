"""C11 life cycle of interpolation tables."""
import gzip
import hashlib
import json
import os
import shutil

import eccodes as ec
import numpy as np
import gen
import scene as sc
import interp as ip

QUICK, THOROUGH, WORKERS = 192, 1200, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 120
RULE = ('distinct (operation, table state, mode, folder option, output format, process memory) combinations after which exit code, maps, table folders and configuration were compared '
        'with the model of the life cycle')
REQUIRE = {'reused': 120, 'created': 120, 'refused': 60, 'recreated': 15, 'from_global': 5, 'other_folder': 20, 'name_clash': 10, 'old_names': 5, 'old_ids': 5}
ASSUMPTIONS = ['grids of one history differ in the parts the table identifier is made of (see the known finding for grids that do not)']
MODES = ['nearest', 'invdist', 'grib_nearest', 'grib_invdist', 'adw', 'bilinear']


def snap(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, folder)] = hashlib.md5(h.read()).hexdigest()
    return out


class Key:
    def __init__(self, src, grib, tgt, mode):
        self.src, self.grib, self.tgt, self.mode, self.ref, self.file, self.glob = src, grib, tgt, mode, None, None, False


def same(a, b, tol=1e-10):
    # field values lie in [0, 100]: a sum of four products may be off by its last bits
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=0, atol=tol, equal_nan=True) for x, y in zip(a, b))


def entries(w):
    p = os.path.join(w.pyg2p_home, 'intertables.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k: v for k, v in json.load(f).items() if isinstance(v, dict)}


def world(w, rng):
    """keys whose tables would all like the same file name"""
    n = rng.choice([9, 12, 15])
    shapes = [(n, 1), (1, n)] if rng.random() < .3 else [(n // 3, 3)] * 2
    keys = []
    names = rng.choice([('in_20240101.grb', 'in_20240202.grb'), ('rain.grb', 'rain.grib2'), ('a.grb', 'b.grb')])
    if rng.random() < .55:
        return neighbours(w, rng, n, shapes, names)
    for k in range(2):
        lon1 = [5., 100.][k]
        g = gen.Grid(ni=rng.randint(5, 7), nj=rng.randint(5, 7), lat1=rng.choice([50., 20.]), lon1=lon1, dlat=1., dlon=1., edition=rng.choice([1, 2]))
        src = sc.Source(g)
        p = gen.write_grib(w.path(names[k]), [gen.message(g, '2t', (s, s), None, sc.field(w.np, src.n, 0, 100)) for s in (0, 6)])
        twins = rng.random() < .5          # two targets with the same bounds
        for t in range(2):
            la, lo = ip.coords(rng, w.np, src, n, outside=0, on_node=.2)
            # bounding values make the identifier of the target
            off = 0 if twins else .3 * t
            la[0], lo[0] = src.lats[0] - .25 - off, src.lons[0] + .25 + off
            la[1], lo[1] = src.lats[-1] + .25, src.lons[-1] - .25
            if twins:
                la[2:], lo[2:] = (np.clip(x[2:], min(x[0], x[1]), max(x[0], x[1])) for x in (la, lo))
            tgt = sc.target_maps(w, la.reshape(shapes[t]), lo.reshape(shapes[t]), name=f't{k}{t}')
            for mode in rng.sample(MODES, 2):
                keys.append(Key(src, p, tgt, mode))
    return keys


def neighbours(w, rng, n, shapes, names):
    """two grids that have nearly everything in common, and the same targets"""
    a = dict(ni=rng.randint(5, 7), nj=rng.randint(5, 7), lat1=rng.choice([50., 20.]), lon1=rng.choice([5., 10.25, 350.5]), dlat=1., dlon=1.)
    b = dict(a)
    ed = rng.choice([1, 2])
    k = rng.choice(['first', 'last', 'both', 'columns', 'rows', 'swap'])
    if k == 'first':
        # the last longitude stays
        d = rng.choice([.02, .02, .003, .0003 if ed == 2 else .01])
        b['lon1'], b['dlon'] = a['lon1'] + d * (a['ni'] - 1), 1 - d
    elif k == 'last':
        b['dlon'] = rng.choice([1.05, .99, 1.125])
    elif k == 'both':
        b['lon1'] = a['lon1'] + rng.choice([.25, .5, .125, -.01])
    elif k == 'columns':
        b['ni'], b['dlon'] = 2 * a['ni'] - 1, .5
    elif k == 'rows':
        b['nj'], b['dlat'] = 2 * a['nj'] - 1, .5
    else:
        a['ni'], a['nj'] = rng.choice([(5, 7), (7, 5), (6, 8)])
        # the same corners and number of values
        b.update(ni=a['nj'], nj=a['ni'], dlon=(a['ni'] - 1) / (a['nj'] - 1), dlat=(a['nj'] - 1) / (a['ni'] - 1))
        a['dlon'] = a['dlat'] = (a['nj'] - 1) * (a['ni'] - 1) / 20.
        b['dlon'], b['dlat'] = a['dlon'] * (a['ni'] - 1) / (a['nj'] - 1), a['dlat'] * (a['nj'] - 1) / (a['ni'] - 1)
    keys, srcs = [], []
    for j, d in enumerate((a, b)):
        g = gen.Grid(edition=ed, **d)
        src = sc.Source(g)
        srcs.append((src, gen.write_grib(w.path(names[j]), [gen.message(g, '2t', (s, s), None, sc.field(w.np, src.n, 0, 100)) for s in (0, 6)])))
    for t in range(2):
        la, lo = ip.coords(rng, w.np, srcs[0][0], n, outside=0, on_node=.2)
        tgt = sc.target_maps(w, la.reshape(shapes[t]), lo.reshape(shapes[t]), name=f't0{t}')
        for mode in rng.sample(MODES, 2):
            keys += [Key(s, p, tgt, mode) for s, p in srcs]
    return keys


def run(w, rng, o, i):
    if i % 10 == 9:
        return collision(w, rng, o)
    keys = world(w, rng)
    for k in keys:
        w.reset_home()
        r = sc.execute(w, k.grib, k.tgt, '2t', k.mode, outdir='ref' + str(keys.index(k)), fmt='netcdf')
        if not o.check(r.ok and len(r.frames) == 2, 'table-first-run', f'{k.mode}: {r.res.brief()}'):
            return
        k.ref = [f for _, f in r.frames]
    o.case = dict(keys=[(k.mode, k.src.grid.key(), k.tgt.shape, os.path.basename(k.grib)) for k in keys], ops=[])
    no_var = rng.random() < .25
    w.reset_home()
    dirs = dict(default=w.tables, other=w.outdir('other_tables'), glob=w.outdir('global_tables'))
    if no_var:
        w.write_conf({'GEOPOTENTIALS': w.geos})
    gdir = os.path.join(w.cwd, 'configuration', 'global')
    saved = {f: open(os.path.join(gdir, f)).read() for f in ('global_conf.json', 'intertables.json')}
    try:
        with open(os.path.join(gdir, 'global_conf.json'), 'w') as f:
            json.dump({'geopotentials': w.geos, 'intertables': dirs['glob']}, f)
        with open(os.path.join(gdir, 'intertables.json'), 'w') as f:
            f.write('{}')
        history(w, rng, o, keys, dirs, gdir, no_var)
    finally:
        for f, s in saved.items():
            with open(os.path.join(gdir, f), 'w') as h:
                h.write(s)


def table_path(k, dirs, user):
    """where a run finds the table of k (None: nowhere)"""
    if not k.file:
        return None
    for d in (user, dirs['glob']):
        for f in (k.file, k.file + '.gz'):
            if d and os.path.exists(os.path.join(d, f)):
                return os.path.join(d, f)
    return None


def history(w, rng, o, keys, dirs, gdir, no_var):
    nops = 24
    for step in range(nops):
        op = rng.choice(['run'] * 9 + ['delete', 'publish', 'oldname', 'oldid'])
        k = rng.choice(keys)
        if op == 'delete':
            p = table_path(k, dirs, dirs['default'])
            if p:
                os.unlink(p)
                w.fresh()
                o.case['ops'].append(['delete', os.path.basename(p)])
            continue
        if op == 'publish':
            # the administrator moves a table to the shared folder and its entry to the global configuration
            p = os.path.join(dirs['default'], k.file or '-')
            if k.file and os.path.exists(p) and not k.glob:
                shutil.move(p, dirs['glob'])
                e = entries(w)
                ident = [x for x, v in e.items() if v['filename'] == k.file][0]
                gp = os.path.join(gdir, 'intertables.json')
                g = json.load(open(gp))
                g[ident] = e.pop(ident)
                json.dump(g, open(gp, 'w'))
                json.dump(dict(e, description='x'), open(os.path.join(w.pyg2p_home, 'intertables.json'), 'w'))
                k.glob = True
                w.fresh()
                o.case['ops'].append(['publish', k.file])
            continue
        if op == 'oldname':
            # a table configured by an earlier version, without .gz in its name (compressed or not)
            p = os.path.join(dirs['default'], k.file or '-')
            if k.file and k.file.endswith('.gz') and os.path.exists(p) and not k.glob:
                e = json.load(open(os.path.join(w.pyg2p_home, 'intertables.json')))
                for v in e.values():
                    if isinstance(v, dict) and v['filename'] == k.file:
                        v['filename'] = k.file[:-3]
                json.dump(e, open(os.path.join(w.pyg2p_home, 'intertables.json'), 'w'))
                k.file = k.file[:-3]
                if rng.random() < .5:
                    with gzip.open(p) as a, open(p[:-3], 'wb') as b:
                        b.write(a.read())
                    os.unlink(p)
                w.fresh()
                o.count('old_names')
                o.case['ops'].append(['oldname', k.file])
            continue
        if op == 'oldid':
            # a table configured by an earlier version: bounds of the target were all it knew
            p = os.path.join(dirs['default'], k.file or '-')
            if k.file and os.path.exists(p) and not k.glob and sum(old_id(x) == old_id(k) for x in keys) == 1:
                e = json.load(open(os.path.join(w.pyg2p_home, 'intertables.json')))
                ident = [x for x, v in e.items() if isinstance(v, dict) and v['filename'] == k.file][0]
                v = e.pop(ident)
                if rng.random() < .4:
                    v.pop('target_shape', None)
                e[old_id(k)] = v
                json.dump(e, open(os.path.join(w.pyg2p_home, 'intertables.json'), 'w'))
                w.fresh()
                o.count('old_ids')
                o.case['ops'].append(['oldid', k.file])
            continue
        one_run(w, rng, o, k, keys, dirs, no_var, step)


SUFFIX = dict(nearest='scipy_nearest', invdist='scipy_invdist', grib_nearest='grib_nearest', grib_invdist='grib_invdist', adw='scipy_adw', bilinear='scipy_bilinear')


def old_id(k):
    """identifiers as in the intertables.json that comes with pyg2p"""
    if not hasattr(k, 'old'):
        with open(k.grib, 'rb') as f:
            h = ec.codes_grib_new_from_file(f)
        part = [f'{ec.codes_get_double(h, x):.4f}'.rstrip('0').rstrip('.') for x in ('longitudeOfFirstGridPointInDegrees', 'longitudeOfLastGridPointInDegrees')]
        part += [str(ec.codes_get_long(h, x)) for x in ('Ni', 'Nj', 'numberOfValues')] + [ec.codes_get_string(h, 'gridType')]
        ec.codes_release(h)
        for a in (k.tgt.lats, k.tgt.lons):
            a = np.asarray(a, np.float32)
            part += [str(int(k.tgt.gt[j])) for j in (0, 3, 1, 5)] + [f'{float(x):.2f}' for x in (np.nanmin(a), np.nanmax(a))]
        k.old = 'I' + '_'.join(part) + SUFFIX[k.mode]
    return k.old


def one_run(w, rng, o, k, keys, dirs, no_var, step):
    create = rng.random() < .5
    where = rng.choice(['default', 'default', 'other'])
    via_json = rng.random() < .5
    fmt = rng.choice(['netcdf', 'netcdf', 'pcraster'])
    fresh = rng.random() < .6
    user = dirs[where] if where == 'other' or not no_var else None
    have = table_path(k, dirs, user)
    before = {n: snap(d) for n, d in dirs.items()}
    conf0 = entries(w)
    home0 = snap(w.pyg2p_home)
    outdir = f'o{step}'
    args = [] if where == 'default' or via_json else ['-N', dirs['other']]
    interp = {'@intertableDir': dirs['other']} if where == 'other' and via_json else None
    r = sc.execute(w, k.grib, k.tgt, '2t', k.mode, fmt=fmt, interp=interp, args=args, outdir=outdir, create=create, fresh=fresh)
    after = {n: snap(d) for n, d in dirs.items()}
    conf1 = entries(w)
    what = (f'{k.mode} {os.path.basename(k.grib)} {"-B " if create else ""}{where}{"/json" if via_json else ""} {fmt} table {os.path.basename(have) if have else None} '
            f'entry {k.file} vars {not no_var} new process {fresh}')
    o.case['ops'].append(what)
    expect_ok = bool(have) or (create and user is not None)
    if not expect_ok:
        o.check(r.res.exc is None and r.res.rc == 1, 'table-refused', lambda: f'{what}: expected exit code 1, {r.res.brief()}')
        o.check(after == before and conf1 == conf0, 'table-side-effect', lambda: f'{what}: changed {delta(before, after)} {sorted(set(conf1) ^ set(conf0))}')
        files = [f for f in os.listdir(w.path(outdir)) if not f.endswith('.xml')] if os.path.isdir(w.path(outdir)) else []
        o.check(not files, 'table-output', lambda: f'{what}: refused, but wrote {files}')
        o.count('refused')
        o.sig('refused', k.mode, where, via_json, no_var, create, bool(k.file))
        return
    if not o.check(r.ok and len(r.frames) == len(k.ref), 'table-run', lambda: f'{what}: {r.res.brief()} {len(r.frames)} maps'):
        return
    got = [f for _, f in r.frames]
    ref = k.ref if fmt == 'netcdf' else [f.astype(np.float32).astype(float) for f in k.ref]
    o.check(same(got, ref, 1e-10 if fmt == 'netcdf' else 2e-5), 'table-values', lambda: f'{what}: maps differ from those of the run that used a table of its own: {sc.diff(got[0], ref[0])}')
    if have:
        o.check(after == before and conf1 == conf0, 'table-rewritten', lambda: f'{what}: the table was there, but changed {delta(before, after)} {sorted(set(conf1) ^ set(conf0))}')
        o.check(fresh is False or snap(w.pyg2p_home) == home0 or not home0.get('intertables.json'), 'table-config', lambda: f'{what}: user configuration changed')
        o.count('reused')
        if os.path.dirname(have) == dirs['glob']:
            o.count('from_global')
        if where == 'other':
            o.count('other_folder')
        o.sig('reused', k.mode, where, via_json, fmt, fresh, create, os.path.dirname(have) == dirs['glob'], have.endswith('.gz'), k.file.endswith('.gz'))
        return
    name = [n for n in dirs if dirs[n] == user][0]
    new = sorted(set(after[name]) - set(before[name]))
    others = all({f: h for f, h in after[n].items() if not (n == name and f in new)} == before[n] for n in dirs)
    o.check(len(new) == 1 and others, 'table-files', lambda: f'{what}: expected one new file in {name}, got {delta(before, after)}')
    changed = {e for e in set(conf0) | set(conf1) if conf0.get(e) != conf1.get(e)}
    lost = set(conf0) - set(conf1)
    good = o.check(len(changed) <= 1 and not lost, 'table-entries', lambda: f'{what}: entries changed {sorted(changed)} lost {sorted(lost)}')
    if len(new) != 1 or not good:
        return
    if k.file is None:
        o.check(len(changed) == 1 and conf1[list(changed)[0]]['filename'] == new[0], 'table-entry', lambda: f'{what}: new table {new} but entries {changed} {[conf1.get(c) for c in changed]}')
        taken = [x.file for x in keys if x is not k and x.file]
        o.check(not any(new[0] in (t, t + '.gz') for t in taken), 'table-shared', lambda: f'{what}: new table {new[0]} has the name of the table of another grid {taken}')
        if any(t.split('.')[0].startswith(new[0].split('.')[0]) or new[0].startswith('tbl_1') or new[0].startswith('tbl_2') for t in taken):
            o.count('name_clash')
        o.count('created')
        o.sig('created', k.mode, where, via_json, fmt, fresh, no_var)
    else:
        o.check(new[0] in (k.file, k.file + '.gz'), 'table-renamed', lambda: f'{what}: table made again as {new[0]}')
        o.count('recreated')
        o.sig('recreated', k.mode, where, via_json, fmt, fresh, k.glob)
    k.file = new[0]
    # the entry of the user wins over the global one from now on
    k.glob = False
    leftovers = [f for n in after for f in after[n] if not f.startswith('tbl')]
    o.check(not leftovers, 'table-leftovers', lambda: f'{what}: {leftovers}')


def delta(a, b):
    return {n: [(f, 'new' if f not in a[n] else 'gone' if f not in b[n] else 'changed') for f in sorted(set(a[n]) | set(b[n])) if a[n].get(f) != b[n].get(f)] for n in a}


def collision(w, rng, o):
    """Known finding: grids that differ only in latitude share one identifier, so the second is interpolated with the table of the first."""
    n = rng.randint(5, 8)
    la = [50., 40.]
    gs = [gen.Grid(ni=n, nj=n, lat1=x, lon1=5., dlat=1., dlon=1.) for x in la]
    src = [sc.Source(g) for g in gs]
    v = sc.field(w.np, n * n, 0, 100)
    ps = [gen.write_grib(w.path(f'g{k}.grb'), [gen.message(g, '2t', (0, 0), None, v)]) for k, g in enumerate(gs)]
    # cells in both grids' latitudes
    idx = np.arange(n * n).reshape(n, n)
    lats = np.concatenate([src[0].lats[idx[:2]], src[1].lats[idx[:2]]])
    lons = np.concatenate([src[0].lons[idx[:2]], src[1].lons[idx[:2]]])
    tgt = sc.target_maps(w, lats, lons)
    ref = []
    for k in (0, 1):
        w.reset_home()
        r = sc.execute(w, ps[k], tgt, '2t', 'nearest', outdir=f'r{k}')
        if not o.check(r.ok, 'table-first-run', r.res.brief()):
            return
        ref.append(r.frames[0][1])
    w.reset_home()
    a = sc.execute(w, ps[0], tgt, '2t', 'nearest', outdir='a')
    b = sc.execute(w, ps[1], tgt, '2t', 'nearest', outdir='b')
    o.check(a.ok and same([a.frames[0][1]], [ref[0]]), 'table-values', 'first of two grids')
    o.count('same_identifier')
    o.check(b.ok and same([b.frames[0][1]], [ref[1]]), 'table-id-latitude',
            lambda: f'grid {gs[1].key()} was interpolated with the table of grid {gs[0].key()}: {sc.diff(b.frames[0][1], ref[1]) if b.ok else b.res.brief()}')
    o.sig('same identifier', n)
