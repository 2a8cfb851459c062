"""C18 exit codes and side effects: inputs untouched, nothing written elsewhere, invalid executions and failed writes are told."""
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import gen
import scene as sc
import world

QUICK, THOROUGH, WORKERS = 170, 4000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 240
RULE = ('distinct (kind of run or mistake or fault, place, output format, correction, aggregation, table) situations after which exit code, output folder and every other file of the scratch '
        'world (content, time of change and inode) were compared with what they have to be')
REQUIRE = {'valid': 40, 'mistakes': 80, 'faults': 30, 'no_messages': 6, 'files_watched': 3000, 'processes': 6}
ASSUMPTIONS = ['a full disk is played by a limit on the size of files (RLIMIT_FSIZE) around the run']


def stat(path):
    s = os.lstat(path)
    with open(path, 'rb') as f:
        return f.read(), s.st_mtime_ns, s.st_ino, s.st_mode


def snapshot(*folders, skip=()):
    out = {}
    for f in folders:
        for d, ds, fs in os.walk(f):
            if d in skip:
                ds[:] = []
                continue
            for x in fs:
                if not x.endswith('.lock'):
                    out[os.path.join(d, x)] = stat(os.path.join(d, x))
    return out


def delta(a, b):
    m = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            m.append(f'{k} is gone')
        elif k not in a:
            m.append(f'{k} appeared')
        elif a[k] != b[k]:
            m.append(f'{k} changed ({"content" if a[k][0] != b[k][0] else "time, inode or mode"})')
    return m[:6]


class Scene:
    """A valid execution: command line, execution file, inputs."""

    def __init__(self, w, rng):
        self.src = sc.Source(sc.pick_grid(rng, kinds=('regular_ll',) * 4 + ('rotated_ll',)))
        big = rng.random() < .4
        self.tgt = sc.node_target(w, rng, self.src, shape=(rng.randint(20, 40), rng.randint(20, 40)) if big else None)
        self.mode = sc.node_mode(rng, self.src)
        g = self.src.grid
        self.short = rng.choice(['2t', '2t', 'tp'])
        if self.short == 'tp':
            g.edition = 1
        steps = [0, 6, 12, 18, 24][:rng.randint(2, 5)]
        base, ms = np.zeros(self.src.n), []
        mask = sc.random_mask(rng, w.np, self.src.n)
        for s in steps:
            base = base + sc.field(w.np, self.src.n, 0, .02) if self.short == 'tp' else sc.field(w.np, self.src.n, 240, 310)
            # the first message of accumulations is instantaneous in some files
            first = self.short == 'tp' and s == 0 and rng.random() < .4
            ms.append(gen.message(g, self.short, (0, s) if self.short == 'tp' else (s, s), 'instant' if first else None, base, mask=mask, mv=1e20 if mask is not None else 9999.))
        self.steps = steps
        self.corr = rng.random() < .35
        self.param = {}
        if self.corr:
            zm = None if mask is None else w.np.permutation(mask)
            z = gen.message(g, 'z', (0, 0), None, sc.field(w.np, self.src.n, 0, 9000), mask=zm, mv=1e20 if zm is not None else 9999.)
            if rng.random() < .5:
                ms.append(z)
                self.geo = None
            else:
                self.geo = gen.write_grib(w.path('geo.grb'), [z])
            self.dem = gen.write_pcr(w.path('dem.map'), sc.field(w.np, self.tgt.lats.size, 0, 900).reshape(self.tgt.shape), self.tgt.gt)
            self.param = {'@correctionFormula': 'p+gem-dem*0.0065', '@gem': 'z*0.01', '@demMap': self.dem}
        if self.short == '2t' and rng.random() < .4:
            self.param['@applyConversion'] = 'k2c'
        self.agg = sc.agg_conf(12, 'accumulation' if self.short == 'tp' else 'average') if len(steps) == 5 and rng.random() < .6 else None
        self.grib = gen.write_grib(w.path('in.grb'), ms)
        self.fmt = rng.choice(['netcdf', 'pcraster'])
        self.n = 2 if self.agg else len(steps)
        self.out = {}
        if self.agg and self.short == 'tp':
            self.out['@unitTime'] = 12
        self.json = w.path('c.json')
        self.od = w.path('o')
        self.doc = json.load(open(gen.command_json(self.json, self.short, self.tgt.lat, self.tgt.lon, self.tgt.clone, self.mode, None, self.out, self.param, self.agg)))
        self.argv = ['-c', self.json, '-i', self.grib, '-o', self.od, '-F', self.fmt]

    def register(self, w):
        return w.cli(['-g', self.geo]) if self.corr and self.geo else None

    def names(self):
        if self.fmt == 'netcdf':
            return [f'{self.short}_{self.agg["@type"] if self.agg else None}.nc']
        return [f'{self.short}000000.{k:03d}' for k in range(1, self.n + 1)]

    def write(self, doc):
        with open(self.json, 'w') as f:
            json.dump(doc, f)

    def key(self):
        return self.fmt, self.corr, bool(self.agg), self.mode


def outputs(od):
    return sorted(f for f in os.listdir(od) if not f.endswith('.xml')) if os.path.isdir(od) else []


def run(w, rng, o, i):
    tmp, old = w.outdir('tmp'), os.environ.get('TMPDIR')
    os.environ['TMPDIR'], tempfile.tempdir = tmp, None
    try:
        s = Scene(w, rng)
        r = s.register(w)
        if r is not None and not o.check(r.ok, 'eff-register', lambda: r.brief()):
            return
        k = i % 10
        if k in (0, 1, 2):
            valid(w, rng, o, s)
        elif k in (3, 4, 5, 6, 7):
            names = sorted(MISTAKES)
            for n in range(3):
                mistake(w, rng, o, s, names[(3 * (i // 10 * 5 + k - 3) + n) % len(names)])
        elif k == 8:
            fault(w, rng, o, s, i)
        else:
            nothing(w, rng, o, s)
    finally:
        tempfile.tempdir = None
        if old is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = old


def world_of(w):
    return w.case, w.cwd, w.home


def valid(w, rng, o, s):
    """all files of the user but the outputs are left alone, with and without new tables"""
    jf = os.path.join(w.pyg2p_home, 'intertables.json')
    if rng.random() < .3:
        # the output folder may have other files
        os.makedirs(s.od)
        for n in ('notes.txt', 'old.nc', '2t000000.099', 'tp_x.nc'):
            with open(os.path.join(s.od, n), 'w') as f:
                f.write('mine')
    w.cli(['-K'])       # configuration files of the user come to existence
    last = None
    for n, create in enumerate((True, False, rng.random() < .5)):
        before = snapshot(*world_of(w))
        argv = s.argv + (['-B'] if create else [])
        r = w.cli(argv, fresh=rng.random() < .5)
        after = snapshot(*world_of(w))
        what = f'{s.short} {s.mode} {s.fmt} corr {s.corr} agg {s.agg} run {n} {"-B" if create else ""}'
        o.check(r.ok, 'eff-valid-code', lambda: f'{what}: {r.brief()}')
        mine = {os.path.join(s.od, x) for x in s.names()}
        missing = sorted(x for x in mine if x not in after)
        o.check(not missing, 'eff-valid-output', lambda: f'{what}: no {missing}, has {outputs(s.od)}')
        allowed = set(mine)
        if n == 0:
            allowed |= {k for k in after if os.path.dirname(k) == w.tables} | {jf}
        a, b = ({k: v for k, v in x.items() if k not in allowed} for x in (before, after))
        o.check(a == b, 'eff-valid-others', lambda: f'{what}: {delta(a, b)}')
        if n == 0 and set(before) & {k for k in allowed if os.path.dirname(k) == w.tables}:
            o.check(False, 'eff-valid-tables', f'{what}: tables were there before the first run')
        data = {x: gen.read_nc(x)['raw'].tobytes() if x.endswith('.nc') else after[x][0] for x in mine if x in after}
        if last is not None:
            o.check(data == last, 'eff-valid-again', lambda: f'{what}: the same execution wrote other maps')
        last = data
        o.count('files_watched', len(before))
        o.count('valid')
        o.sig('valid', n, create, *s.key())
    # a table folder that is not involved is left alone: nothing but one table and the entry
    o.check(len([x for x in os.listdir(w.tables)]) >= 1, 'eff-valid-table', f'{s.mode}: no table after -B')


def M(name):
    def deco(f):
        MISTAKES[name] = f
        return f
    return deco


MISTAKES = {}


def doc_edit(path, value):
    """a mistake in the execution file"""
    def f(w, rng, s, argv, doc):
        d = doc['Execution']
        for k in path[:-1]:
            d = d.setdefault(k, {})
        if value is None:
            d.pop(path[-1], None)
        else:
            d[path[-1]] = value(w, rng) if callable(value) else value
        return argv
    return f


def text_file(w, rng):
    p = w.path(f'text{rng.randrange(1000)}.map')
    with open(p, 'w') as f:
        f.write('this is not a map\n' * 50)
    return p


def other_case(w, rng):
    return rng.choice(['TP', 'Tp', '10U', ' 2t', 'tp ', 'Ssr'])


def nowhere(w, rng):
    return w.path('nowhere.map')


OM, PA, IN = 'OutMaps', 'Parameter', 'Interpolation'
for name, path, value in [
        ('short name unknown', (PA, '@shortName'), 'nosuch'), ('short name case', (PA, '@shortName'), other_case), ('no short name', (PA, '@shortName'), None), ('conversion unknown', (PA, '@applyConversion'), 'k2'),
        ('no lat map', (OM, IN, '@latMap'), nowhere), ('no lon map', (OM, IN, '@lonMap'), nowhere), ('no clone', (OM, '@cloneMap'), nowhere), ('no lat attribute', (OM, IN, '@latMap'), None),
        ('no clone attribute', (OM, '@cloneMap'), None), ('mode unknown', (OM, IN, '@mode'), 'linear'), ('mode case', (OM, IN, '@mode'), 'Nearest'),
        ('level no number', (PA, '@level'), 'surface'), ('tstart no number', (PA, '@tstart'), 'x'), ('tend no number', (PA, '@tend'), '1.5h'), ('dataDate no number', (PA, '@dataDate'), 'today'),
        ('member no number', (PA, '@perturbationNumber'), 'ten'), ('fmap no number', (OM, '@fmap'), 'one'), ('ext no number', (OM, '@ext'), 'one'), ('unitTime no number', (OM, '@unitTime'), 'day'),
        ('lat map is text', (OM, IN, '@latMap'), text_file), ('lon map is text', (OM, IN, '@lonMap'), text_file), ('clone is text', (OM, '@cloneMap'), text_file),
        ('variable unknown', (OM, '@cloneMap'), '{NOSUCHVAR}/clone.map'), ('no OutMaps', (OM,), None), ('no Parameter', (PA,), None), ('no Interpolation', (OM, IN), None)]:
    MISTAKES[name] = doc_edit(path, value)


@M('format unknown in file')
def _(w, rng, s, argv, doc):
    doc['Execution'][OM]['@format'] = rng.choice(['tiff', 'NetCDF', 'maps'])
    k = argv.index('-F')
    return argv[:k] + argv[k + 2:]


@M('aggregation type unknown')
def _(w, rng, s, argv, doc):
    doc['Execution']['Aggregation'] = {'@step': 12, '@type': rng.choice(['mean', 'sum', 'Average'])}
    return argv


@M('aggregation of accumulations')
def _(w, rng, s, argv, doc):
    doc['Execution']['Aggregation'] = {'@step': 6, '@type': rng.choice(['average', 'instantaneous']) if s.short == 'tp' else 'means'}
    return argv


@M('aggregation step no number')
def _(w, rng, s, argv, doc):
    doc['Execution']['Aggregation'] = {'@step': 'day', '@type': 'average'}
    return argv


@M('tstart after tend')
def _(w, rng, s, argv, doc):
    if rng.random() < .5:
        doc['Execution'][PA].update({'@tstart': 12, '@tend': rng.choice([6, '6', 0, '0'])})
        return argv
    doc['Execution'][PA]['@tend'] = 6
    return argv + ['-s', rng.choice(['12', '7'])]


@M('incomplete correction')
def _(w, rng, s, argv, doc):
    d = {'@correctionFormula': 'p+gem+dem', '@gem': 'z', '@demMap': s.tgt.clone}
    k = rng.choice(['@gem', '@demMap'])
    d.pop(k)
    if rng.random() < .3:
        d[k] = ''
    for x in ('@correctionFormula', '@gem', '@demMap'):
        doc['Execution'][PA].pop(x, None)
    doc['Execution'][PA].update(d)
    return argv


@M('no dem map')
def _(w, rng, s, argv, doc):
    doc['Execution'][PA].update({'@correctionFormula': 'p+gem+dem', '@gem': 'z', '@demMap': w.path('nodem.map')})
    return argv


@M('formula')
def _(w, rng, s, argv, doc):
    doc['Execution'][PA].update({'@correctionFormula': rng.choice(['p+gem+height', 'p+*gem', 'p+gem-dem)']), '@gem': 'z', '@demMap': s.tgt.clone})
    return argv


@M('no GRIB')
def _(w, rng, s, argv, doc):
    k = argv.index('-i')
    return rng.choice([argv[:k] + argv[k + 2:], argv[:k + 1] + [w.path('none.grb')] + argv[k + 2:], argv[:k + 1] + [w.case] + argv[k + 2:]])


@M('input is no GRIB')
def _(w, rng, s, argv, doc):
    k = argv.index('-i')
    p = w.path('notgrib.grb')
    with open(p, 'wb') as f:
        f.write(rng.choice([b'', b'not a GRIB file\n' * 100, bytes(2000), b'GRIB' * 100]))
    return argv[:k + 1] + [p] + argv[k + 2:]


@M('GRIB cut')
def _(w, rng, s, argv, doc):
    # the last message is not complete: its map would be lost
    k = argv.index('-i')
    p = shutil.copy(s.grib, w.path('cut.grb'))
    with open(p, 'rb+') as f:
        f.truncate(os.path.getsize(p) - rng.choice([1, 4, 8, 40]))
    return argv[:k + 1] + [p] + argv[k + 2:]


@M('command file')
def _(w, rng, s, argv, doc):
    k = argv.index('-c')
    p = w.path('bad.json')
    if os.path.exists(p):
        os.unlink(p)
    if rng.random() < .5:
        with open(p, 'w') as f:
            f.write(rng.choice(['', '{', '[]', '{"Execution": ', '{"Exec": {}}', json.dumps(doc)[:-3]]))
    return argv[:k + 1] + [p] + argv[k + 2:]


@M('no command file')
def _(w, rng, s, argv, doc):
    k = argv.index('-c')
    return argv[:k] + argv[k + 2:]


@M('arguments')
def _(w, rng, s, argv, doc):
    return argv + rng.choice([['-F', 'tiff'], ['-T', '600'], ['-s', 'first'], ['-e', '1.5'], ['--nosuch', '1'], ['-m', 'x'], ['-i'], ['stray'], ['-x', 'a'], ['-l', 'ALL'], ['-D', '2020-01-01']])


@M('no arguments')
def _(w, rng, s, argv, doc):
    return []


@M('shapes of coordinates')
def _(w, rng, s, argv, doc):
    r, c = s.tgt.shape
    big = np.ones((r + 1, c + 2)) * 45.
    p = gen.write_pcr(w.path('shape.map'), big, s.tgt.gt)
    doc['Execution'][OM][IN][rng.choice(['@latMap', '@lonMap'])] = p
    return argv


@M('shape of clone')
def _(w, rng, s, argv, doc):
    r, c = s.tgt.shape
    doc['Execution'][OM]['@cloneMap'] = gen.write_pcr(w.path('shapec.map'), np.ones((r + 1, c + 2)), s.tgt.gt)
    return argv


@M('output folder is a file')
def _(w, rng, s, argv, doc):
    k = argv.index('-o')
    p = w.path('afile')
    open(p, 'w').close()
    return argv[:k + 1] + [rng.choice([p, os.path.join(p, 'sub')])] + argv[k + 2:]


@M('no table')
def _(w, rng, s, argv, doc):
    return [a for a in argv if a != '-B']


@M('table folder')
def _(w, rng, s, argv, doc):
    d = {'GEOPOTENTIALS': w.geos}
    if rng.random() < .5:
        d['INTERTABLES'] = w.path('notables')
    w.write_conf(d)
    return argv


@M('table folder on command line')
def _(w, rng, s, argv, doc):
    return argv + ['-N', w.path('notables')]


@M('configuration of parameters')
def _(w, rng, s, argv, doc):
    with open(os.path.join(w.pyg2p_home, 'parameters.json'), 'w') as f:
        f.write('{"x": ')
    return argv


@M('value format')
def _(w, rng, s, argv, doc):
    k = argv.index('-F')
    return argv[:k + 1] + ['netcdf'] + argv[k + 2:] + ['-vf', rng.choice(['f16', 'int', 'x'])]


@M('packing')
def _(w, rng, s, argv, doc):
    k = argv.index('-F')
    return argv[:k + 1] + ['netcdf'] + argv[k + 2:] + [rng.choice(['-S', '-O', '-vm', '-vM']), 'abc']


# mistakes that show when the file is open already
LATE = ('value format', 'packing', 'shape of clone', 'shapes of coordinates')
# no message is found in it
EMPTY = ('input is no GRIB',)


def mistake(w, rng, o, s, name):
    w.cli(['-K'])
    doc = json.loads(json.dumps(s.doc))
    conf = {f: stat(os.path.join(w.pyg2p_home, f)) for f in os.listdir(w.pyg2p_home) if not f.endswith('.lock')}
    argv = MISTAKES[name](w, rng, s, list(s.argv) + ['-B'], doc)
    s.write(doc)
    before = snapshot(*world_of(w))
    r = w.cli(argv)
    after = snapshot(*world_of(w))
    what = f'{name} ({" ".join(map(str, argv[6:]))}) {s.key()}'
    o.check(r.exc is not None or r.rc not in (0, None) or name in EMPTY and r.rc == 0 and any(x[0] == 'ERROR' for x in r.log), 'eff-mistake-code', lambda: f'{what}: {r.brief()}')
    if name in LATE:
        after = {k: v for k, v in after.items() if not (os.path.dirname(k) == s.od and k.endswith('.nc'))}
    # tables are made before the maps: those of the run may stay
    tabs = {k for k in after if k not in before and os.path.dirname(k) == w.tables} | {os.path.join(w.pyg2p_home, 'intertables.json')}
    a, b = ({k: v for k, v in x.items() if k not in tabs} for x in (before, after))
    o.check(a == b, 'eff-mistake-files', lambda: f'{what}: {delta(a, b)}')
    o.check(name in LATE or not outputs(s.od), 'eff-mistake-output', lambda: f'{what}: wrote {outputs(s.od)}')
    reg = json.load(open(os.path.join(w.pyg2p_home, 'intertables.json')))
    lost = [e['filename'] for e in reg.values() if isinstance(e, dict) and not os.path.exists(os.path.join(w.tables, e['filename']))]
    o.check(not lost, 'eff-mistake-entry', lambda: f'{what}: configured tables that do not exist: {lost}')
    for f, (b_, *_x) in conf.items():
        if f != 'intertables.json':
            with open(os.path.join(w.pyg2p_home, f), 'wb') as h:
                h.write(b_)
    w.wipe(s.od)
    for f in os.listdir(w.tables):
        os.unlink(os.path.join(w.tables, f))
    with open(os.path.join(w.pyg2p_home, 'intertables.json'), 'w') as f:
        json.dump({'description': ''}, f)
    s.write(s.doc)
    o.count('mistakes')
    o.count('files_watched', len(before))
    o.sig('mistake', name, s.fmt)


def nothing(w, rng, o, s):
    """no message is selected: nothing is written and it is no failure"""
    r0 = w.cli(s.argv + ['-B'])
    o.check(r0.ok, 'eff-valid-code', lambda: r0.brief())
    w.wipe(s.od)
    pick = rng.choice([['-D', '19990101'], ['-m', '77'], 'level', 'short'])
    argv, doc = list(s.argv), json.loads(json.dumps(s.doc))
    if pick == 'level':
        doc['Execution'][PA]['@level'] = 77
    elif pick == 'short':
        doc['Execution'][PA]['@shortName'] = '10u'
        doc['Execution'][PA].pop('@applyConversion', None)
    else:
        argv += pick
    s.write(doc)
    before = snapshot(*world_of(w))
    r = w.cli(argv)
    after = snapshot(*world_of(w))
    o.check(r.exc is None and r.rc == 0, 'eff-nothing-code', lambda: f'no messages ({pick}): {r.brief()}')
    o.check(before == after, 'eff-nothing-files', lambda: f'no messages ({pick}): {delta(before, after)}')
    o.count('no_messages')
    o.sig('nothing', str(pick), s.fmt)


def fault(w, rng, o, s, i):
    """maps that do not fit on the disk: the exit code tells"""
    r0 = w.cli(s.argv + ['-B'])
    if not o.check(r0.ok, 'eff-valid-code', lambda: r0.brief()):
        return
    size = {f: os.path.getsize(os.path.join(s.od, f)) for f in outputs(s.od)}
    w.wipe(s.od)
    top = max(size.values())
    inputs = snapshot(*world_of(w))
    for lim in sorted({0, rng.randint(1, 300), top // 2, top - 1, rng.randint(1, top - 1)}):
        what = f'{s.fmt} {s.tgt.shape} files limited to {lim} of {top} bytes'
        # HDF5 may die of it: in a process of its own
        p = subprocess.run([sys.executable, '-B', '-c', CHILD, str(lim), world.source_dir()] + [str(a) for a in s.argv], cwd=w.cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           timeout=200) if s.fmt == 'netcdf' else None
        if p is None:
            soft = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, soft[1]))
            try:
                r = w.cli(s.argv + ['-l', 'ERROR'])
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, soft)
            code, told = r.brief(), r.exc is not None or r.rc not in (0, None)
        else:
            code, told = f'exit status {p.returncode}', p.returncode != 0
            o.count('processes')
        o.check(told, 'eff-fault-code', lambda: f'{what}: {code} with {[(f, os.path.getsize(os.path.join(s.od, f))) for f in outputs(s.od)]}')
        w.wipe(s.od)
        after = snapshot(*world_of(w))
        o.check(inputs == after, 'eff-fault-files', lambda: f'{what}: {delta(inputs, after)}')
        o.count('faults')
        o.sig('fault', s.fmt, lim == 0, lim * 4 // top, s.corr)


CHILD = '''
import resource, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[2])
from pyg2p.main import pyg2p_exe
resource.setrlimit(resource.RLIMIT_FSIZE, (int(sys.argv[1]), resource.RLIM_INFINITY))
sys.exit(pyg2p_exe(sys.argv[3:]))
'''
