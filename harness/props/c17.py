"""C17 one execution can be written in many ways: command line over execution file, defaults, path variables, user configuration over the global one."""
import json
import os
import shutil

import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 480, 3000, 8
LEVEL = 'exploration'
RULE = ('distinct (option, way of giving it) combinations, and user configurations, for which the output of a run was compared byte by byte (netCDF: all but the history) with that of the same '
        'execution written another way, or with the decoded messages')
REQUIRE = {'variants': 250, 'decoys': 600, 'explicit_defaults': 150, 'variables': 300, 'undefined': 20, 'user_params': 20, 'folders': 60, 'geo_folders': 10}
ASSUMPTIONS = []
# option: (json section, json key, short, long, decoy values)
OPTS = {
    'tstart': ('Parameter', '-s', '--start'), 'tend': ('Parameter', '-e', '--end'), 'dataTime': ('Parameter', '-T', '--dataTime'), 'dataDate': ('Parameter', '-D', '--dataDate'),
    'perturbationNumber': ('Parameter', '-m', '--perturbationNumber'), 'fmap': ('OutMaps', '-f', '--fmap'), 'ext': ('OutMaps', '-x', '--ext'), 'format': ('OutMaps', '-F', '--format'),
    'namePrefix': ('OutMaps', '-n', '--namePrefix'), 'scaleFactor': ('OutMaps', '-S', '--scaleFactor'), 'offset': ('OutMaps', '-O', '--offset'), 'validMin': ('OutMaps', '-vm', '--validMin'),
    'validMax': ('OutMaps', '-vM', '--validMax'), 'valueFormat': ('OutMaps', '-vf', '--valueFormat'), 'outputStepUnits': ('OutMaps', '-U', '--outputStepUnits'),
    'intertableDir': ('Interpolation', '-N', '--intertableDir'), 'geopotentialDir': ('Interpolation', '-G', '--geopotentialDir'),
}
DEFAULT = {'fmap': 1, 'ext': 1, 'format': 'pcraster', 'scaleFactor': 1, 'offset': 0, 'valueFormat': 'f8', 'outputStepUnits': 'h'}
NUM = ('tstart', 'tend', 'dataTime', 'dataDate', 'perturbationNumber', 'fmap', 'ext', 'scaleFactor', 'offset', 'validMin', 'validMax')


def content(path):
    """everything a reader can see in an output file"""
    if path.endswith('.nc'):
        d = gen.read_nc(path)
        at = {k: str(v) for k, v in d['attrs'].items()}
        g = {k: str(v) for k, v in d['gattrs'].items() if k != 'history'}
        return (d['vars'], at, g, d['model'], d['dtype'], d['raw'].tobytes(), d['raw'].shape, d['time'].tobytes(), str(d['time'].dtype), d['time_units'], d['lat'].tobytes(), d['lon'].tobytes())
    with open(path, 'rb') as f:
        return f.read()


def listing(folder):
    return {f: content(os.path.join(folder, f)) for f in sorted(os.listdir(folder)) if not f.endswith('.xml')}


class Vars:
    """path variables, spread over several .conf files"""

    def __init__(self, w, rng):
        self.w, self.rng, self.d, self.n = w, rng, {}, 0

    def name(self):
        r = self.rng
        self.n += 1
        return r.choice(['MAPS', 'EFAS_MAPS', 'maps', 'Maps2', 'M1', 'DIR', 'x', 'A_B']) + r.choice(['', '', '_']) + r.choice(['A', 'B', 'C', 'd', '5', '05']) + 'qwertyuiopasdfghjklzxcvbnm'[self.n % 26]

    def wrap(self, path):
        r = self.rng
        k = r.randrange(5)
        head, tail = os.path.split(path)
        if k == 0:
            return path
        if k == 1:
            v = self.name()
            self.d[v] = path
            return '{%s}' % v
        if k == 2:
            v = self.name()
            self.d[v] = head
            return '{%s}/%s' % (v, tail)
        if k == 3:
            a, b = self.name(), self.name()
            up, last = os.path.split(head)
            self.d[a], self.d[b] = up, last
            return '{%s}/{%s}/%s' % (a, b, tail)
        a, b = self.name(), self.name()
        cut = r.randint(1, len(tail) - 1)
        self.d[a], self.d[b] = head + '/' + tail[:cut], tail[cut:]
        return '{%s}{%s}' % (a, b)

    def write(self):
        r = self.rng
        files = ['paths.conf'] + [f'{x}.conf' for x in r.sample(['mine', 'efas', '00', 'zz'], r.randint(0, 2))]
        text = {f: [] for f in files}
        every = dict(self.d, INTERTABLES=self.w.tables, GEOPOTENTIALS=self.w.geos)
        for k, v in every.items():
            sp = r.choice(['', '', ' ', '  '])
            q = r.choice(['', '', '', '"'])
            text[r.choice(files)].append(f'{r.choice(["", "", "  "])}{k}{sp}={sp}{q}{v}{q}')
        for f in files:
            x = text[f] + r.sample(['# comment', '', '#MAPS=/nowhere', '   ', 'UNUSED=/a=b', '# x = y'], r.randint(0, 4))
            r.shuffle(x)
            with open(os.path.join(self.w.pyg2p_home, f), 'w') as h:
                h.write('\n'.join(x) + r.choice(['', '\n']))


def run(w, rng, o, i):
    if i % 5 == 4:
        return user_params(w, rng, o)
    g = sc.pick_grid(rng, nmin=3, nmax=7)
    src = sc.Source(g)
    sub = w.outdir(rng.choice(['maps', 'maps=v1', 'my maps', 'm.d', 'maps#1', 'v #2']))
    tgt = sc.node_target(w, rng, src, name=os.path.join(os.path.basename(sub), 't'))
    members = rng.random() < .4
    multi = rng.random() < .6
    steps = [0, 6, 12, 18, 24]
    msgs, truth = [], {}
    for date in ([20240115, 20240116] if multi else [20240115]):
        for time in ([0, 1200] if multi else [0]):
            for m in ([0, 2, 11] if members else [None]):
                for s in steps:
                    v = sc.field(w.np, src.n, 250, 310)
                    msgs.append(gen.message(g, '2t', (s, s), None, v, date=date, time=time, member=m))
    p = gen.write_grib(w.path('in.grb'), msgs)
    T = {}
    if rng.random() < .7:
        T['tstart'] = rng.choice(steps[:4])
    if rng.random() < .7:
        T['tend'] = rng.choice([s for s in steps if s >= T.get('tstart', 0)])
    if multi:
        T['dataDate'], T['dataTime'] = rng.choice([20240115, 20240116]), rng.choice([0, 1200])
    if members:
        T['perturbationNumber'] = rng.choice([0, 0, 2, 11])
    fmt = rng.choice(['netcdf', 'pcraster'])
    if fmt == 'netcdf' or rng.random() < .5:
        T['format'] = fmt
    if rng.random() < .5:
        T['namePrefix'] = rng.choice(['pT24', 'out', 'a', 'temperat'])
    if fmt == 'pcraster':
        if rng.random() < .6:
            T['fmap'] = rng.choice([1, 1, 3, 14])
        if rng.random() < .6:
            T['ext'] = rng.choice([1, 1, 2, 6])
    else:
        T.update({k: v for k, v in dict(scaleFactor=rng.choice([1, .01, .5]), offset=rng.choice([0, 273.15, -10]), validMin=rng.choice([255, 260.5]), validMax=rng.choice([300, 305.25]),
                                        valueFormat=rng.choice(['f8', 'f4', 'i4']), outputStepUnits=rng.choice(['h', '3h', 'D', 'm'])).items() if rng.random() < .5})
    corr = rng.random() < .35
    param = {}
    geos = {}
    if corr:
        for k in 'abc':
            d = w.outdir('geo_' + k)
            z = sc.field(w.np, src.n, 0, 30000)
            geos[d] = gen.write_grib(os.path.join(d, 'geo.grb'), [gen.message(g, 'z', (0, 0), None, z)])
        dem = gen.write_pcr(os.path.join(sub, 'dem.map'), sc.field(w.np, tgt.lats.size, 0, 3000).reshape(tgt.shape), tgt.gt)
        param = {'@correctionFormula': 'p+gem-dem*0.0065', '@gem': '(z/9.81)*0.0065', '@demMap': dem}
        if rng.random() < .7:
            T['geopotentialDir'] = w.path('geo_b')
    tdirs = {k: w.outdir('tab_' + k) for k in 'bc'}
    if rng.random() < .6:
        T['intertableDir'] = tdirs['b']
    o.case = dict(grid=g.key(), options=T, corr=corr, variants=[])
    decoy = dict(tstart=6, tend=18, dataTime=1200, dataDate=20240116, perturbationNumber=2, fmap=7, ext=3, format='pcraster', namePrefix='decoy', scaleFactor=.25, offset=5,
                 validMin=280, validMax=290, valueFormat='f4', outputStepUnits='12h', intertableDir=tdirs['c'], geopotentialDir=w.path('geo_c'))
    decoy['perturbationNumber'] = 11 if T.get('perturbationNumber') == 2 else 2
    decoy['dataTime'] = 1200 - T.get('dataTime', 0)
    decoy['format'] = 'pcraster' if T.get('format') == 'netcdf' else 'netcdf'
    if T.get('tend') is not None:
        decoy['tstart'] = min(6, T['tend'])
    ref = None
    nvar = rng.randint(3, 4)
    for n in range(nvar):
        w.reset_home()
        for d in tdirs.values():
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
        used = []
        conf = {'Parameter': dict(param), 'OutMaps': {}, 'Interpolation': {}, 'Execution': {}}
        cli = []
        V = Vars(w, rng)

        def to_json(k, v):
            sec = OPTS[k][0]
            if k.endswith('Dir'):
                v = V.wrap(v) if n else v
                sec = rng.choice([sec, 'Execution'])
            elif k in NUM and k not in ('fmap', 'ext') and rng.random() < .3:
                v = str(v)
            conf[sec]['@' + k] = v

        def to_cli(k, v):
            s, lg = OPTS[k][1:]
            form = rng.randrange(3)
            cli.append([s, str(v)] if form == 0 else [lg, str(v)] if form == 1 else [f'{lg}={v}'])

        for k in OPTS:
            if k in T:
                way = 'json' if n == 0 else 'cli+json' if n == 1 else rng.choice(['json', 'cli', 'cli+json'])
                if way != 'json':
                    to_cli(k, T[k])
                if way == 'json':
                    to_json(k, T[k])
                elif way == 'cli+json':
                    to_json(k, decoy[k])
                    o.count('decoys')
            elif k in DEFAULT and n and rng.random() < .5:
                # what is the default, in words
                way = rng.choice(['default json', 'default cli', 'default cli+json'])
                if 'cli' in way:
                    to_cli(k, DEFAULT[k])
                if way == 'default json':
                    to_json(k, DEFAULT[k])
                elif '+' in way:
                    to_json(k, decoy[k])
                o.count('explicit_defaults')
            else:
                continue
            used.append(k + ' ' + way)
            o.sig(k, way)
        # where the data folders of the user are
        w.geos = w.path('geo_a')
        wrap = V.wrap if n else (lambda x: x)
        if corr:
            conf['Parameter']['@demMap'] = wrap(dem)
        lat, lon, clone = wrap(tgt.lat), wrap(tgt.lon), wrap(tgt.clone)
        undefined = n and rng.random() < .12
        if undefined:
            bad = rng.choice(['lat', 'lon', 'clone'])
            u = '{NOT_SET%s}/x.map' % rng.choice(['', '1', '_a'])
            lat, lon, clone = (u if bad == 'lat' else lat), (u if bad == 'lon' else lon), (u if bad == 'clone' else clone)
        V.write()
        if corr:
            r = w.cli(['-g', os.path.join(w.geos, 'geo.grb')] if False else ['-g', geo_elsewhere(w, geos)])
            if not o.check(r.ok, 'settings-geo', lambda: f'-g: {r.brief()}'):
                return
        c = {'Execution': dict({'@name': 'x', 'Parameter': dict({'@shortName': '2t'}, **conf['Parameter']),
                                'OutMaps': dict({'@cloneMap': clone, 'Interpolation': dict({'@latMap': lat, '@lonMap': lon, '@mode': 'nearest'}, **conf['Interpolation'])}, **conf['OutMaps'])}, **conf['Execution'])}
        gen.write_json(w.path(f'c{n}.json'), c)
        od = w.path(f'out{n}') if rng.random() < .5 else w.path(f'new{n}', 'deep')
        if od.endswith(f'out{n}'):
            os.makedirs(od)
        cli += [['-c', w.path(f'c{n}.json')], ['-i', p], ['-o', od + rng.choice(['', '/'])], [rng.choice(['-B', '--createIntertable'])]]
        rng.shuffle(cli)
        argv = [x for a in cli for x in a]
        r = w.cli(argv)
        what = f'variant {n}: {used}'
        o.case['variants'].append(dict(argv=argv, json=c))
        o.count('variables', len(V.d))
        if undefined:
            done = os.listdir(od) if os.path.isdir(od) else []
            o.check(r.exc is None and r.rc == 1 and not done, 'settings-undefined', lambda: f'{u}: {r.brief()} wrote {done}')
            o.count('undefined')
            continue
        if not o.check(r.ok, 'settings-run', lambda: f'{what}: {r.brief()} {argv} {json.dumps(c)}'):
            return
        o.count('variants')
        got = listing(od)
        want_dir = T.get('intertableDir', w.tables)
        where = {d: [f for f in os.listdir(d) if f.startswith('tbl')] for d in (w.tables, tdirs['b'], tdirs['c'])}
        o.check(len(where[want_dir]) == 1 and sum(map(len, where.values())) == 1, 'settings-table-folder', lambda: f'{what}: tables {where}, expected one in {want_dir}')
        o.count('folders')
        if corr and 'geopotentialDir' in T:
            o.count('geo_folders')
        if ref is None:
            ref = got
            absolute(w, o, T, fmt, p, tgt, od, corr, what)
        else:
            o.check(sorted(got) == sorted(ref), 'settings-files', lambda: f'{what}: files {sorted(got)}, written in the execution file {sorted(ref)}\n{argv}\n{json.dumps(c)}')
            bad = [f for f in got if f in ref and got[f] != ref[f]]
            o.check(not bad, 'settings-output', lambda: f'{what}: {bad} differ {[(a, b) for a, b in zip(got[bad[0]], ref[bad[0]]) if a != b][:3] if bad[0].endswith(".nc") else ""}\n{argv}\n{json.dumps(c)}')


def geo_elsewhere(w, geos):
    """the registered file: a copy of the one of the user, so that its folder keeps it"""
    d = w.outdir('incoming')
    p = os.path.join(d, 'geo.grb')
    shutil.copy(geos[w.path('geo_a')], p)
    return p


def absolute(w, o, T, fmt, p, tgt, od, corr, what):
    """times written are those asked for"""
    dec = [d for d in gen.decode(p) if d['short'] == '2t']
    dec = [d for d in dec if ('dataDate' not in T or d['date'] == T['dataDate']) and ('dataTime' not in T or d['time'] == T['dataTime'])]
    steps = sorted({d['end'] for d in dec if T.get('tstart', 0) <= d['end'] <= T.get('tend', 24)})
    if fmt == 'netcdf':
        d = gen.read_nc(os.path.join(od, os.listdir(od)[0]))
        u = {'h': 1, '3h': 3, 'D': 24, 'm': 1 / 60.}[T.get('outputStepUnits', 'h')]
        o.check(np.allclose(d['time'], np.array(steps) / u), 'settings-steps', lambda: f'{what}: times {d["time"]} {T}')
        o.check(d['dtype'] == T.get('valueFormat', 'f8') and d['vars'] == [T.get('namePrefix', '2t')], 'settings-format', lambda: f'{what}: {d["dtype"]} {d["vars"]}')
    else:
        n = [f for f in os.listdir(od) if not f.endswith('.xml')]
        num = sorted(int(f.replace('.', '')[-6:].lstrip('abcdefghijklmnopqrstuvwxyzT_') or 0) for f in n)
        want = [T.get('fmap', 1) + k * T.get('ext', 1) for k in range(len(steps))]
        o.check(num == want, 'settings-numbers', lambda: f'{what}: {sorted(n)}, expected numbers {want}')


def user_params(w, rng, o):
    """parameters.json of the user adds parameters and replaces those of the global configuration, one by one"""
    g = sc.pick_grid(rng, nmin=3, nmax=6)
    src = sc.Source(g)
    tgt = sc.node_target(w, rng, src)
    glob = json.load(open(os.path.join(w.cwd, 'configuration', 'global', 'parameters.json'))) if os.path.exists(os.path.join(w.cwd, 'configuration', 'global', 'parameters.json')) else {}
    a, b = round(rng.uniform(.1, 5), 3), round(rng.uniform(-50, 50), 2)
    one = {'@id': 'mine', '@function': f'x=x*{a}+({b})', '@unit': 'mine_u', '@cutOffNegative': rng.choice([True, False, 'True', 'False'])}
    other = {'@id': 'min', '@function': 'x=x*1000', '@unit': 'other_u', '@cutOffNegative': False}
    if rng.random() < .3:
        del one['@cutOffNegative']
    new = {'@description': 'my description', '@shortName': 'q', '@unit': 'u0', 'Conversion': rng.choice([[other, one], [one, other], one])}
    user = {'q': new}
    redefined = rng.random() < .5
    if redefined:
        user['2t'] = {'@description': 'redefined', '@shortName': '2t', '@unit': 'u1', 'Conversion': {'@id': 'k2c', '@function': f'x=x-{200 + a}', '@unit': 'C2', '@cutOffNegative': False}}
    gen.write_json(os.path.join(w.pyg2p_home, 'parameters.json'), user)
    before = open(os.path.join(w.pyg2p_home, 'parameters.json')).read()
    base = {'q': (-20., 30.), '2t': (250., 310.), 'sd': (0., 10.)}
    unknown = rng.choice(['none', 'Mine', 'MIN', 'mi', 'min2'])
    for short, conv in (('q', 'mine'), ('q', None), ('2t', 'k2c'), ('2t', None), ('sd', 'tomm'), ('q', unknown)):
        p = w.path(short + '.grb')
        if not os.path.exists(p):
            gen.write_grib(p, [gen.message(g, short, (0, 0), None, sc.field(w.np, src.n, *base[short]), level=500 if short == 'q' else 0, level_type='isobaricInhPa' if short == 'q' else None)])
        v = gen.decode(p)[0]['values']
        r = sc.execute(w, p, tgt, short, 'nearest', param={'@applyConversion': conv} if conv else None, outdir=f'{short}{conv}', json=f'{short}{conv}.json')
        what = f'user parameters {sorted(user)}: {short} {conv} ({new["Conversion"]})'
        if conv == unknown:
            o.check(r.res.exc is None and r.res.rc == 1, 'settings-conversion-unknown', lambda: f'{what}: {r.res.brief()}')
            continue
        if not o.check(r.ok and len(r.frames) == 1, 'settings-param-run', lambda: f'{what}: {r.res.brief()}'):
            continue
        if short == 'q':
            e, unit, desc = v, 'u0', 'my description'
            if conv:
                e, unit = v * a + b, 'mine_u'
                if str(one.get('@cutOffNegative', False)) == 'True':
                    e = np.where(e < 0, 0, e)
        elif short == '2t':
            e, unit, desc = (v - 200 - a, 'C2', 'redefined') if redefined and conv else (v - 273.15, glob.get('2t', {}).get('Conversion', {}), None) if conv else (v, 'u1' if redefined else None, None)
        else:
            e, unit, desc = v * 1000, None, None
        got = r.frames[0][1]
        want = sc.on_target(tgt, e)
        o.check(sc.close(got, want, 1e-9, 1e-8), 'settings-param', lambda: f'{what}: {sc.diff(got, want)}')
        at = r.raw['attrs']
        if isinstance(unit, str):
            o.check(at['units'] == unit, 'settings-unit', lambda: f'{what}: unit {at["units"]}, configured {unit}')
        if desc:
            o.check(at['long_name'] == desc, 'settings-description', lambda: f'{what}: {at["long_name"]}')
        o.count('user_params')
    o.check(open(os.path.join(w.pyg2p_home, 'parameters.json')).read() == before, 'settings-user-file', 'parameters.json of the user was changed by a run')
    o.sig('params', redefined, type(new['Conversion']).__name__, one.get('@cutOffNegative', 'absent'))
