"""C12 an execution gives the same result whatever was executed before, by the same process or in the same folders."""
import copy
import json
import os
import shutil

import numpy as np

import execs as ex_
import gen
import scene as sc
from forks import child, warm

QUICK, THOROUGH, WORKERS = 60, 1500, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 170
RULE = 'distinct (execution, way, position, what was executed before) runs inside a history compared with the same execution alone in a new process with a new user configuration'
REQUIRE = {'histories': 30, 'runs': 250, 'repeats': 60, 'shared_out': 50, 'failures': 25, 'api_runs': 50, 'variants': 60, 'corrected_runs': 50, 'read_only_runs': 30, 'same_paths': 100, 'moved_grids': 30, 'cleanings': 20}
ASSUMPTIONS = ['values may differ by 1e-9 (relative) when a table is created in one run and read in the other']
WAYS = ('netcdf', 'pcraster', 'api')


def variant(w, rng, ex, tag, sub, kind=None):
    """the same input with another interpolation, target, conversion, correction, aggregation or selection"""
    v = copy.deepcopy(ex)
    e = v.doc['Execution']
    kind = kind or rng.choice(['mode', 'target', 'conversion', 'formula', 'aggregation', 'window', 'member', 'input', 'input', 'latitude', 'latitude', 'flip', 'flip', 'flip'])
    if kind == 'input' and rng.random() < .4 and north(v):
        kind = 'latitude'
    if v.feat['mode'] == 'cdd' and kind != 'input' and rng.random() < .6:
        kind = 'cdd'
    if kind == 'member' and 'perturbationNumber' in v.sel:
        v.sel['perturbationNumber'] = rng.choice([m for m in (1, 2, 5) if m != v.sel['perturbationNumber']])
    elif kind == 'member' and 'dataTime' in v.sel:
        v.sel['dataTime'] = 1200 - v.sel['dataTime']
    elif kind == 'latitude' and north(v):
        # a grid of the same columns, size and spacing elsewhere, and the same target moved with it
        lo, hi = north(v)
        shift = rng.choice([x for x in (-40, -30, -20, -12, 12, 20, 30, 40) if lo + x > -80 and hi + x < 80] or [0])
        v.grib = other_input(v.grib, w.path(sub, tag + 'in.grb'), 1, shift)
        la = gen.read_pcr(v.maps[0])[0] + shift
        p = w.path(sub, tag + 'lat.map')
        gen.write_pcr(p, np.nan_to_num(la), None, np.isnan(la))
        e['OutMaps']['Interpolation']['@latMap'] = p
        v.maps = (p, v.maps[1], v.maps[2])
    elif kind == 'input' and v.feat['kind'] in ('inst', 'accum', 'level') and v.grib2 is None:
        # a file of the same size: other values, and steps twice as long
        f = rng.choice([1, 2, 2, 3])
        v.grib = other_input(v.grib, w.path(sub, tag + 'in.grb'), f)
        for k in ('start', 'end'):
            if k in v.sel:
                v.sel[k] *= f
        if 'Aggregation' in e:
            e['Aggregation']['@step'] *= f
    elif kind == 'formula' and '@demMap' in e['Parameter']:
        if rng.random() < .5:
            e['Parameter']['@demMap'] = gen.write_pcr(w.path(sub, tag + 'dem.map'), sc.field(w.np, v.shape[0] * v.shape[1], 0, 3000).reshape(v.shape))
        else:
            e['Parameter'].update({'@correctionFormula': 'p+gem/50-dem*0.01', '@gem': 'z*0.002'})
    elif kind == 'conversion' and v.short in ('2t', 'tp', 'e', 'sro'):
        if '@applyConversion' in e['Parameter']:
            del e['Parameter']['@applyConversion']
        else:
            e['Parameter']['@applyConversion'] = {'2t': 'k2c', 'sro': 'm2mm'}.get(v.short, 'tomm')
    elif kind == 'aggregation' and 'Aggregation' in e and v.feat['two'] is False and v.short == '2t':
        e['Aggregation']['@type'] = 'average' if e['Aggregation']['@type'] == 'instantaneous' else 'instantaneous'
        e['Aggregation'].pop('@halfweights', None)
    elif kind == 'window' and 'Aggregation' not in e and 'start' in v.sel:
        del v.sel['start']
    elif kind == 'cdd' and v.feat['mode'] == 'cdd':
        # the same target with other distances
        it = e['OutMaps']['Interpolation']
        if rng.random() < .5:
            it['@cdd_map'] = gen.write_pcr(w.path(sub, tag + 'cdd.map'), np.full(v.shape, 40. + 400 * rng.random()))
        else:
            it['@cdd_mode'] = 'Hofstra' if it['@cdd_mode'] != 'Hofstra' else 'MixHofstraShepard'
    elif kind == 'flip' and v.maps[0].endswith('.map') and v.maps[0] != v.maps[1]:
        # another target with the same bounds: the same coordinates upside down
        la, lo = gen.read_pcr(v.maps[0])[0][::-1], gen.read_pcr(v.maps[1])[0][::-1]
        p, q = w.path(sub, tag + 'lat.map'), w.path(sub, tag + 'lon.map')
        gen.write_pcr(p, np.nan_to_num(la), None, np.isnan(la))
        gen.write_pcr(q, np.nan_to_num(lo), None, np.isnan(lo))
        e['OutMaps']['Interpolation'].update({'@latMap': p, '@lonMap': q})
        v.maps = (p, q, v.maps[2])
    elif kind == 'target' and v.maps[2].endswith('.map') and v.maps[0].endswith('.map'):
        # same shape, other place; the clone has the same size
        la, lo = gen.read_pcr(v.maps[0])[0], gen.read_pcr(v.maps[1])[0]
        la = la - .11 - .3 * rng.random()
        p, q = w.path(sub, tag + 'lat.map'), w.path(sub, tag + 'lon.map')
        gen.write_pcr(p, np.nan_to_num(la), None, np.isnan(la))
        gen.write_pcr(q, np.nan_to_num(lo), None, np.isnan(lo))
        e['OutMaps']['Interpolation'].update({'@latMap': p, '@lonMap': q})
        v.maps = (p, q, v.maps[2])
    else:
        kind = 'mode'
        m = rng.choice([x for x in ('nearest', 'invdist', 'grib_nearest', 'grib_invdist', 'adw', 'bilinear_delaunay') if x != v.feat['mode']])
        it = e['OutMaps']['Interpolation']
        for k in ('@cdd_map', '@cdd_mode', '@use_broadcasting', '@num_of_splits'):
            it.pop(k, None)
        it['@mode'] = m
        v.feat['mode'] = m
    v.feat['variant'] = kind
    return v


def north(v):
    """latitudes of input and target together, if both can be moved north or south"""
    if v.grib2 or '@demMap' in v.doc['Execution']['Parameter'] or not v.maps[0].endswith('.map') or v.maps[0] == v.maps[1]:
        return None
    d = gen.decode(v.grib)
    if any(m['gridType'] != 'regular_ll' for m in d):
        return None
    la = gen.read_pcr(v.maps[0])[0]
    return min(np.nanmin(la), min(m['lats'].min() for m in d)), max(np.nanmax(la), max(m['lats'].max() for m in d))


def other_input(src, dst, factor, shift=0):
    import eccodes as ec
    with open(src, 'rb') as f, open(dst, 'wb') as out:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                break
            s = [int(x) * factor for x in str(ec.codes_get(h, 'stepRange')).split('-')]
            if factor != 1 and s[-1]:
                ec.codes_set(h, 'stepRange', '-'.join(map(str, s)))
            if shift:
                for x in ('latitudeOfFirstGridPointInDegrees', 'latitudeOfLastGridPointInDegrees'):
                    ec.codes_set(h, x, ec.codes_get(h, x) + shift)
            v = ec.codes_get_double_array(h, 'values')
            mv = ec.codes_get_double(h, 'missingValue')
            ok = v != mv
            v[ok] = v[ok][::-1] * .97
            ec.codes_set_double_array(h, 'values', v)
            ec.codes_write(h, out)
            ec.codes_release(h)
    return dst


def moved(ex, work):
    """the execution with copies of its files, under the names all executions use"""
    m = copy.deepcopy(ex)
    text = json.dumps(ex.doc)
    names = {}
    for name, p in (('lat', ex.maps[0]), ('lon', ex.maps[1]), ('clone', ex.maps[2]), ('dem', ex.doc['Execution']['Parameter'].get('@demMap')),
                    ('cdd', ex.doc['Execution']['OutMaps']['Interpolation'].get('@cdd_map'))):
        if p and p not in names:
            names[p] = os.path.join(work, 'x_' + name + os.path.splitext(p)[1])
            shutil.copy(p, names[p])
            text = text.replace(json.dumps(p), json.dumps(names[p]))
    m.doc = json.loads(text)
    for k in ('grib', 'grib2'):
        p = getattr(ex, k)
        if p:
            setattr(m, k, os.path.join(work, 'x_in' + k[4:] + '.grb'))
            shutil.copy(p, getattr(m, k))
    return m


def execute(w, ex, way, od, create, level, json_path, inner=()):
    """(status, content) of one run"""
    if way == 'api':
        conf = ex.api_conf(create)
        r, vals = w.api(conf, fresh=False)
        if r.exc is not None or vals is None:
            return ('failed', r.brief()), None
        return (0, ''), {int(k.end_step): np.array(v, float) for k, v in vals.items()}
    r = w.cli(ex.argv(w, od, way, json_path, create) + (['-l', level] if level else []), fresh=False)
    return (r.rc if r.exc is None else 'exception', r.brief()), ex_.content(od)


def setup(w, geos):
    w.reset_home()
    ex_.parameters(w)
    for g in geos:
        # refused for a grid that another input has too: its geopotential is used then
        w.cli(['-g', g], fresh=False)


def mistake(w, rng, ex, json_path):
    """something that fails, or does nothing"""
    k = rng.choice(['input', 'json', 'mode', 'messages', 'beyond', 'option', 'no_table', 'config'])
    od = w.outdir('out_bad')
    a = ex.argv(w, od, rng.choice(['netcdf', 'pcraster']), json_path, True)
    if k == 'input':
        a[a.index('-i') + 1] = w.path('none.grb')
    elif k == 'json':
        a[1] = w.path('none.json')
    elif k in ('mode', 'no_table'):
        d = json.loads(json.dumps(ex.doc))
        if k == 'mode':
            d['Execution']['OutMaps']['Interpolation']['@mode'] = 'nothing'
        else:
            d['Execution']['OutMaps']['Interpolation']['@intertableDir'] = w.outdir('no_tables')
            a.remove('-B')
        gen.write_json(json_path, d)
    elif k == 'messages':
        a += ['-D', '19990101']
    elif k == 'beyond':
        a += ['-e', '999']
    elif k == 'option':
        a += ['--nothing']
    else:
        a = ['-K']
    w.cli(a, fresh=False)
    return k


def run(w, rng, o, i):
    twin = rng.random() < .4         # inputs of the same size under the same name in one process
    n = 1 if twin else rng.choice([2, 2, 3])
    exs = []
    for k in range(n):
        sub = f'e{k}'
        ex = ex_.compose(w, rng, tag=sub + '_', sub=sub, correction=.5, **(dict(kinds=('inst', 'inst', 'accum', 'level')) if twin else {}))
        fam = [ex] + [variant(w, rng, ex, f'v{m}', sub, 'input' if twin else None) for m in range(2 if twin else rng.choice([0, 1, 2, 3]))]
        exs += fam
    warm(exs[0].grib)
    work = w.path('work')
    os.makedirs(work)
    geos = [g for k in range(len(exs)) for g in exs[k].geos]
    geos = list(dict.fromkeys(geos))
    what = ' ;; '.join(f'{k}: {e.key()}' for k, e in enumerate(exs))
    o.case = dict(what=what, docs=[ex_.dump(e) for e in exs])
    ways = [[x for x in WAYS if x != 'pcraster' or e.maps[2].endswith('.map')] for e in exs]
    # what each one gives alone
    alone = {}
    plan = []
    for t in range(rng.randint(7, 11)):
        k = rng.randrange(len(exs))
        way = rng.choice(ways[k])
        plan.append(dict(k=k, way=way, shared=rng.random() < .4, create=rng.random() < .7, level=rng.choice([None, None, 'ERROR', 'DEBUG', 'INFO']), same=twin or rng.random() < .6, bad=rng.random() < .25, fresh=not twin and rng.random() < .15, clean=rng.random() < .15))
    if rng.random() < .7:
        # the same execution again straight away, and at the end
        plan.insert(1, dict(plan[0]))
        plan.append(dict(plan[0]))
    for k, way in sorted({(p['k'], p['way']) for p in plan}):
        def one():
            setup(w, geos)
            return execute(w, exs[k], way, w.outdir(f'alone_{k}_{way}'), True, None, w.path(f'alone_{k}_{way}.json'))
        w.n_resets += 1
        st, res = child(one)
        if st != 'ok':
            o.fail('alone-' + st, f'{exs[k].key()} {way}: {res}')
            return
        if not o.check(res[0][0] == 0, 'alone-run', lambda: f'{exs[k].key()} {way} alone: {res[0]} {ex_.dump(exs[k])}'):
            return
        alone[k, way] = res[1]

    def history():
        setup(w, geos)
        done, log = set(), []
        for t, p in enumerate(plan):
            ex = exs[p['k']]
            if p['bad']:
                log.append(('bad', mistake(w, rng, exs[rng.randrange(len(exs))], w.path('bad.json'))))
            if p['same']:
                # its files under the names another execution had
                w.wipe(work)
                os.makedirs(work)
                ex = moved(ex, work)
            od = w.outdir('out_shared' if p['shared'] else f'out_{t}')
            before = ex_.content(od) if p['shared'] and p['way'] != 'api' else {}
            if p['fresh']:
                w.fresh()
            if p['clean']:
                # all tables are removed, and another process makes the one of this execution: names can be those of others
                for f in os.listdir(w.tables):
                    if os.path.isfile(os.path.join(w.tables, f)):
                        os.unlink(os.path.join(w.tables, f))
                w.cli(['-K'], fresh=False)
                done.clear()
                if child(lambda: execute(w, ex, p['way'], w.outdir('out_other'), True, None, w.path('other.json')))[0] == 'ok':
                    done.add(p['k'])
                log.append(('bad', 'clean'))
            # once its table is there it can be read; the file of the table has the name of the input when it is created
            create = p['create'] or p['k'] not in done
            st, c = execute(w, ex, p['way'], od, create, p['level'], w.path('work.json'))
            done.add(p['k'])
            log.append((t, p, create, st, before, c))
        return log
    w.n_resets += 1
    st, log = child(history, 90)
    if st != 'ok':
        o.fail('history-' + st, f'{what}: {log}')
        return
    seen = []
    for item in log:
        if item[0] == 'bad':
            o.count('cleanings' if item[1] == 'clean' else 'failures')
            seen.append('!' + item[1])
            continue
        t, p, create, st, before, c = item
        k, way = p['k'], p['way']
        where = f'run {t}: execution {k} ({exs[k].key()}) as {way} {p} after {seen}; {what}'
        seen.append(f'{k}{way[0]}')
        if not o.check(st[0] == 0, 'history-run', lambda: f'{where}: {st}, alone it succeeds'):
            continue
        want = alone[k, way]
        got = c if way == 'api' else {x: c[x] for x in c if x in want}
        d = ex_.differ(want, got, 1e-9)
        o.check(d is None, 'history-result', lambda: f'{where}: differs from the same execution alone: {d}')
        if way != 'api':
            rest = {x: c[x] for x in c if x not in want}
            left = {x: before[x] for x in before if x not in want}
            d = ex_.differ(left, rest)
            o.check(d is None, 'history-leftovers', lambda: f'{where}: other files of the folder changed: {d}')
        o.count('runs')
        for name, cond in (('repeats', sum(x == seen[-1] for x in seen) > 1), ('shared_out', p['shared'] and way != 'api'), ('api_runs', way == 'api'), ('variants', 'variant' in exs[k].feat), ('moved_grids', exs[k].feat.get('variant') == 'latitude'),
                           ('corrected_runs', '@demMap' in exs[k].doc['Execution']['Parameter']), ('read_only_runs', not create), ('same_paths', p['same'])):
            if cond:
                o.count(name)
        o.sig(exs[k].key(), way, create, p['shared'], seen[-2] if len(seen) > 1 else '')
    o.count('histories')
