"""C13 command line (netCDF, PCRaster) and Python API give the same maps for the same execution."""
import numpy as np
import gen
import execs as ex_
import scene as sc

QUICK, THOROUGH, WORKERS = 160, 3000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 120
RULE = 'distinct (kind of input, mode, target, conversion, correction, aggregation, selectors, table created or read) executions run as PCRaster, as netCDF and through the API, all maps compared'
REQUIRE = {'triples': 150, 'pcraster': 90, 'maps': 400, 'api_maps': 400, 'corrected': 20, 'half': 8, 'two': 8, 'grib_modes': 20, 'nc_targets': 25, 'selectors': 100}
ASSUMPTIONS = ['PCRaster maps hold single precision; the table made by the first run may be used by the others']


def run(w, rng, o, i):
    ex = ex_.compose(w, rng, inside=.4)
    if not ex_.register(w, ex, o, 'same-geo'):
        return
    what = ex.key() + ' ' + ex_.dump(ex)
    o.case = dict(what=what)
    # PCRaster maps need a PCRaster clone
    order = ['netcdf', 'api'] + (['pcraster'] if ex.maps[2].endswith('.map') else [])
    rng.shuffle(order)
    own = rng.random() < .5          # every way makes its own table
    got = {}
    api = None
    for n, way in enumerate(order):
        tables = w.outdir(f'tab{n}') if own and rng.random() < .7 else None
        if own:
            w.reset_home()
            if not ex_.register(w, ex, o, 'same-geo'):
                return
        create = own or n == 0
        if way == 'api':
            r, vals, api = run_api(w, ex.api_conf(create or rng.random() < .3, tables, [k for k in ex.sel if rng.random() < .3]))
            if not o.check(r.ok and vals is not None, 'same-api-run', lambda: f'{what}: API failed {r.brief()} (order {order}, own tables {own})'):
                return
            got['api'] = vals
        else:
            od = w.outdir('out_' + way)
            r = w.cli(ex.argv(w, od, way, w.path('c.json'), create or rng.random() < .3, tables))
            if not o.check(r.ok, 'same-cli-run', lambda: f'{what}: {way} failed {r.brief()} (order {order}, own tables {own})'):
                return
            got[way] = ex_.read_out(od, way)
    o.check(got['netcdf'] and len(got['netcdf']) >= 1, 'same-empty', lambda: f'{what}: no maps')
    nc = got['netcdf']
    steps = [s for s, _ in nc]
    f4 = [(s, v.astype(np.float32).astype(float)) for s, v in nc]
    if 'pcraster' in got:
        o.count('pcraster')
        o.check(ex_.same_maps(got['pcraster'], f4, 3e-6, 3e-5), 'same-formats', lambda: f'{what}: PCRaster and netCDF differ: {ex_.first_diff(got["pcraster"], f4)}')
    keys = list(got['api'])
    mv = api.mv
    vals = [(int(k.end_step), np.where((np.asarray(v) == mv) if mv == mv else np.isnan(v), np.nan, np.asarray(v, float))) for k, v in got['api'].items()]
    o.check([s for s, _ in vals] == steps, 'same-api-steps', lambda: f'{what}: steps of the API {[s for s, _ in vals]}, of the command line {steps}')
    o.check(ex_.same_maps(vals, nc, 1e-9, 1e-7), 'same-api', lambda: f'{what}: API and command line differ: {ex_.first_diff(vals, nc)} (order {order}, own tables {own})')
    o.check(list(api.values) == keys and api.messages is not None, 'same-api-object', f'{what}: values or messages are not kept')
    o.count('triples')
    o.count('maps', len(nc))
    o.count('api_maps', len(vals))
    f = ex.feat
    for k, c in (('corrected', f['corr']), ('half', str(f['agg']).endswith('half')), ('two', bool(f['two'])), ('grib_modes', f['mode'].startswith('grib')), ('nc_targets', f['target'].startswith('nc')),
                 ('selectors', bool(ex.sel))):
        if c:
            o.count(k)
    o.sig(ex.key(), own, order[0])


def run_api(w, conf):
    box = {}
    from pyg2p.main.api import ApiContext, Pyg2pApi
    w.fresh()

    def go():
        api = Pyg2pApi(ApiContext(conf))
        box['values'] = api.execute()
        box['api'] = api
        return 0
    r = w._run(go)
    return r, box.get('values'), box.get('api')
