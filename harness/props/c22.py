"""C22 registry commands: -g, -K and -W against a model of the user's folders, with a stand-in FTP server on the loopback."""
import ftplib
import json
import os
import shutil
import socket
import threading

import numpy as np
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 800, 4000, 8
LEVEL = 'exploration'
RULE = 'distinct (command, state of folders and registry, kind of input or fault, outcome) situations in which every file of the user was compared with the model after the command'
REQUIRE = {'added': 60, 'refused_same_grid': 20, 'refused_same_name': 8, 'refused_input': 20, 'refused_folder': 8, 'checks_conf': 30, 'removed_entries': 20, 'downloads': 40, 'fetched': 60, 'kept': 30,
           'faults': 20, 'corrected_runs': 25, 'api': 40, 'in_place': 8, 'removed': 8}
ASSUMPTIONS = ['the FTP server is a stand-in on the loopback with the commands that ftplib uses; only its port is set from outside']


class Ftp(threading.Thread):
    """One session at a time, passive mode. fault: None, 'login', 'cut' (data connection ends half way and 426), 'drop' (both connections end), 'folder'."""

    def __init__(self, tree, user, pwd, fault=None, at=0):
        super().__init__(daemon=True)
        self.tree, self.user, self.pwd, self.fault, self.at = tree, user, pwd, fault, at
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(4)
        self.port = self.s.getsockname()[1]
        self.served, self.quit, self.stop, self.c = [], 0, False, None
        self.start()

    def close(self):
        self.stop = True
        try:
            if self.c:
                self.c.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            socket.create_connection(('127.0.0.1', self.port), 1).close()
        except OSError:
            pass
        self.join(5)
        self.s.close()

    def run(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            if self.stop:
                c.close()
                return
            try:
                c.settimeout(20)
                self.c = c
                self.session(c)
            except (OSError, ValueError):
                pass
            finally:
                c.close()

    def session(self, c):
        f = c.makefile('rb')
        say = lambda t: c.sendall(t.encode() + b'\r\n')   # noqa: E731
        say('220 ready')
        cwd, data, user = '/', None, None
        for line in f:
            cmd, _, arg = line.decode().strip().partition(' ')
            cmd = cmd.upper()
            if cmd == 'USER':
                user = arg
                say('331 password')
            elif cmd == 'PASS':
                if self.fault == 'login' or (user, arg) != (self.user, self.pwd):
                    say('530 no')
                else:
                    say('230 in')
            elif cmd == 'CWD':
                p = os.path.normpath(os.path.join(cwd, arg))
                if p in self.tree:
                    cwd = p
                    say('250 ok')
                else:
                    say('550 no folder')
            elif cmd == 'TYPE':
                say('200 ok')
            elif cmd in ('EPSV', 'PASV'):
                data = socket.socket()
                data.bind(('127.0.0.1', 0))
                data.listen(1)
                p = data.getsockname()[1]
                say(f'229 (|||{p}|)' if cmd == 'EPSV' else f'227 (127,0,0,1,{p // 256},{p % 256})')
            elif cmd in ('NLST', 'RETR'):
                if cmd == 'NLST':
                    body = ''.join(n + '\r\n' for n in ['.', '..'] + sorted(self.tree[cwd])).encode()
                elif arg in self.tree[cwd]:
                    body = self.tree[cwd][arg]
                else:
                    say('550 no file')
                    continue
                say('150 here')
                d, _ = data.accept()
                bad = cmd == 'RETR' and self.fault in ('cut', 'drop') and len(self.served) == self.at
                d.sendall(body[:len(body) // 2] if bad else body)
                d.close()
                data.close()
                if cmd == 'RETR':
                    self.served.append(arg)
                if bad and self.fault == 'drop':
                    return
                say('426 aborted' if bad else '226 done')
            elif cmd == 'QUIT':
                self.quit += 1
                say('221 bye')
                return
            else:
                say('200 ok')


def snapshot(*folders):
    """every file below the folders; locks are not content"""
    out = {}
    for f in folders:
        for d, _, fs in os.walk(f):
            for x in fs:
                if x.endswith('.lock'):
                    continue
                p = os.path.join(d, x)
                with open(p, 'rb') as h:
                    b = h.read()
                out[p] = json.loads(b) if x.endswith('.json') else b
    return out


def delta(a, b):
    add = sorted(set(b) - set(a))
    gone = sorted(set(a) - set(b))
    chg = sorted(k for k in set(a) & set(b) if a[k] != b[k])
    return f'new {add} gone {gone} changed {chg}' + ''.join(f' {os.path.basename(k)}: {str(b[k])[:200]} expected {str(a[k])[:200]}' for k in chg if k.endswith('.json'))


class Geo:
    def __init__(self, w, rng, src, name, short, ed, extra):
        self.src, self.name, self.short = src, name, short
        g = src.grid
        g.edition = ed
        self.z = np.round(sc.field(w.np, src.n, 100, 20000))
        m = gen.message(g, short, (0, 0), None, self.z, bits=24)
        ms = [m]
        if extra:
            ms.insert(rng.choice([0, 1]), gen.message(g, '2t', (6, 6), None, sc.field(w.np, src.n, 240, 310), bits=16))
        self.path = gen.write_grib(w.path(name), ms)
        self.z = [d for d in gen.decode(self.path) if d['short'] == short][0]['values']
        with open(self.path, 'rb') as f:
            self.bytes = f.read()


def run(w, rng, o, i):
    gdir = os.path.join(w.cwd, 'configuration', 'global')
    saved = {f: open(os.path.join(gdir, f)).read() for f in ('global_conf.json', 'geopotentials.json', 'intertables.json')}
    port = ftplib.FTP.port
    try:
        history(w, rng, o, i, gdir)
    finally:
        ftplib.FTP.port = port
        for f, s in saved.items():
            with open(os.path.join(gdir, f), 'w') as h:
                h.write(s)


def history(w, rng, o, i, gdir):
    # grids with identifiers of their own
    srcs, ni = [], rng.sample(range(3, 12), 4)
    for k in ni:
        srcs.append(sc.Source(gen.Grid('regular_ll', ni=k, nj=rng.randint(3, 6), lat1=rng.choice([50., 10.]), lon1=rng.choice([0., 5., 100.]), dlat=1., dlon=1., edition=1)))
    names = ['geo.grb', 'geo_b.grb', 'z.grib', 'Geo.grb', 'my_geo.grb', 'my_geo.grb']
    geos = []
    for n in range(6):
        s = rng.choice(srcs)
        d = f'in{n}'
        w.outdir(d)
        geos.append(Geo(w, rng, s, os.path.join(d, rng.choice(names)), rng.choice(['z', 'z', 'orog', 'FIS']), 1, rng.random() < .3))
    gl_geo, gl_tab = w.outdir('gl_geo'), w.outdir('gl_tab')
    reg_g = {}
    with open(os.path.join(gdir, 'global_conf.json'), 'w') as f:
        json.dump({'geopotentials': gl_geo, 'intertables': gl_tab}, f)
    if rng.random() < .5:
        # a geopotential that is configured for all users
        g = rng.choice(geos)
        ident = ident_of(w, g)
        name = rng.choice(names)
        shutil.copy(g.path, os.path.join(gl_geo, name))
        reg_g = {ident: name}
    with open(os.path.join(gdir, 'geopotentials.json'), 'w') as f:
        json.dump(reg_g, f)
    with open(os.path.join(gdir, 'intertables.json'), 'w') as f:
        json.dump({}, f)
    inputs = w.path()
    w.cli(['-K'])       # the configuration files of the user come to existence
    watched = (w.pyg2p_home, w.case, gdir)
    box = []
    for step in range(rng.randint(3, 7)):
        before = snapshot(*watched)
        k = rng.choice(['g', 'g', 'g', 'g', 'bad', 'folder', 'K', 'W', 'W', 'run', 'here', 'remove'])
        if k == 'g':
            add(w, rng, o, rng.choice(geos), before, watched, gdir, box)
        elif k == 'here':
            # the file may be in the folder already
            g = rng.choice(geos)
            p = os.path.join(w.geos, os.path.basename(g.path))
            if not os.path.exists(p):
                shutil.copy(g.path, p)
                old, g.path = g.path, p
                add(w, rng, o, g, snapshot(*watched), watched, gdir, box)
                g.path = old
                o.count('in_place')
        elif k == 'remove':
            remove(w, rng, o, before, watched)
            box = []
        elif k == 'bad':
            bad_input(w, rng, o, before, watched, srcs)
        elif k == 'folder':
            bad_folder(w, rng, o, rng.choice(geos), watched)
        elif k == 'K':
            check_conf(w, rng, o, watched, gl_tab)
        elif k == 'W':
            download(w, rng, o, watched)
        else:
            correct(w, rng, o, geos, step)
    assert inputs


def ident_of(w, g):
    """identifier of the grid of a file, as documented"""
    import eccodes as ec
    with open(g.path, 'rb') as f:
        h = ec.codes_grib_new_from_file(f)
        while ec.codes_get(h, 'shortName') != g.short:
            ec.codes_release(h)
            h = ec.codes_grib_new_from_file(f)
        ks = []
        for k in ('longitudeOfFirstGridPointInDegrees', 'longitudeOfLastGridPointInDegrees', 'Ni', 'Nj', 'numberOfValues', 'gridType'):
            ks.append(ec.codes_get(h, k, str))
        ec.codes_release(h)
    return '$'.join(ks)


def registry(w, gdir):
    g = json.load(open(os.path.join(gdir, 'geopotentials.json')))
    u = json.load(open(os.path.join(w.pyg2p_home, 'geopotentials.json')))
    g.update(u)
    g.pop('description', None)
    return g


def add(w, rng, o, g, before, watched, gdir, box, what='-g'):
    name = os.path.basename(g.path)
    reg = registry(w, gdir)
    ident = [k for k in reg if same_grid(k, g)]
    how = rng.choice(['cli', 'cli', 'api', 'same'])
    if how == 'cli':
        r = w.cli([rng.choice(['-g', '--addGeopotential']), g.path])
    else:
        # documented to be the same; one configuration object may add several files
        from pyg2p.main.config import UserConfiguration, GeopotentialsConfiguration
        from pyg2p.exceptions import ApplicationException
        if how == 'api' or not box:
            w.fresh()
            box[:] = [GeopotentialsConfiguration(UserConfiguration())]

        def go():
            try:
                box[0].add(g.path)
                return 0
            except ApplicationException:
                return 1
        r = w._run(go)
        what = 'GeopotentialsConfiguration.add'
        o.count('api')
    after = snapshot(*watched)
    want = dict(before)
    if ident:
        kind, rc = 'refused_same_grid', 1
    elif name in reg.values():
        # a second file with this name would take the place of the other one
        kind, rc = 'refused_same_name', 1
    else:
        kind, rc = 'added', 0
        want[os.path.join(w.geos, name)] = g.bytes
        jf = os.path.join(w.pyg2p_home, 'geopotentials.json')
        new = [k for k in after[jf] if k not in before[jf]]
        o.check(len(new) == 1 and same_grid(new[0], g), 'reg-identifier', lambda: f'{what} {name}: new entries {new} for grid {g.src.grid.key()}')
        want[jf] = dict(before[jf], **{k: name for k in new})
    o.check(r.exc is None and r.rc == rc, 'reg-exit-code', lambda: f'{what} {name} ({kind}): {r.brief()} expected {rc}')
    o.check(after == want, 'reg-state', lambda: f'{what} {name} ({kind}): {delta(want, after)}')
    o.count(kind)
    o.sig('g', kind, len(reg), bool(os.path.exists(os.path.join(w.geos, name))))


def remove(w, rng, o, before, watched):
    from pyg2p.main.config import Configuration
    jf = os.path.join(w.pyg2p_home, 'geopotentials.json')
    names = sorted(v for k, v in before[jf].items() if k != 'description')
    if not names:
        return
    name = rng.choice(names)
    w.fresh()

    def go():
        Configuration().remove_geopotential(name)
        return 0
    r = w._run(go)
    after = snapshot(*watched)
    want = dict(before)
    want[jf] = {k: v for k, v in before[jf].items() if v != name or k == 'description'}
    o.check(r.ok and after == want, 'reg-remove', lambda: f'remove_geopotential {name}: {r.brief()} {delta(want, after)}')
    o.count('removed')
    o.sig('remove', len(names))


def same_grid(ident, g):
    k, s = ident.split('$'), g.src
    return len(k) >= 6 and k[2:6] == [str(s.grid.ni), str(s.grid.nj), str(s.n), 'regular_ll'] and float(k[0]) == s.lons[0] and abs(float(k[1]) - s.lons[-1]) < 1e-6


def bad_input(w, rng, o, before, watched, srcs):
    k = rng.choice(['nogeo', 'text', 'missing', 'empty', 'folder', 'truncated'])
    p = w.path(f'bad_{k}')
    if os.path.exists(p) and not os.path.isdir(p):
        os.unlink(p)
    s = rng.choice(srcs)
    if k == 'nogeo':
        gen.write_grib(p, [gen.message(s.grid, '2t', (t, t), None, sc.field(w.np, s.n, 240, 310)) for t in (0, 6)])
    elif k == 'text':
        with open(p, 'w') as f:
            f.write('not a GRIB file\n' * 20)
    elif k == 'empty':
        open(p, 'w').close()
    elif k == 'folder':
        os.makedirs(p, exist_ok=True)
    elif k == 'truncated':
        gen.write_grib(p, [gen.message(s.grid, 'z', (0, 0), None, sc.field(w.np, s.n, 240, 310), bits=24)])
        with open(p, 'rb+') as f:
            f.truncate(os.path.getsize(p) - rng.randint(4, 30))
    before = snapshot(*watched)
    r = w.cli(['-g', p])
    after = snapshot(*watched)
    o.check(r.exc is not None or r.rc == 1, 'reg-bad-input-code', lambda: f'-g of {k}: {r.brief()}')
    o.check(after == before, 'reg-bad-input-state', lambda: f'-g of {k}: {delta(before, after)}')
    o.count('refused_input')
    o.sig('bad', k)


def bad_folder(w, rng, o, g, watched):
    k = rng.choice(['undefined', 'missing', 'file'])
    reg_path = os.path.join(w.pyg2p_home, 'paths.conf')
    old = open(reg_path).read()
    d = {'INTERTABLES': w.tables}
    if k == 'missing':
        d['GEOPOTENTIALS'] = w.path('nowhere')
    elif k == 'file':
        d['GEOPOTENTIALS'] = w.path('afile')
        open(w.path('afile'), 'w').close()
    w.write_conf(d)
    before = snapshot(*watched)
    r = w.cli(['-g', g.path])
    after = snapshot(*watched)
    with open(reg_path, 'w') as f:
        f.write(old)
    o.check(r.exc is not None or r.rc == 1, 'reg-folder-code', lambda: f'-g with GEOPOTENTIALS {k}: {r.brief()}')
    o.check(after == before, 'reg-folder-state', lambda: f'-g with GEOPOTENTIALS {k}: {delta(before, after)}')
    o.count('refused_folder')
    o.sig('folder', k)


def check_conf(w, rng, o, watched, gl_tab):
    jf = os.path.join(w.pyg2p_home, 'intertables.json')
    reg = json.load(open(jf))
    for n in range(rng.randint(0, 4)):
        name = f'I{rng.randint(0, 6)}_{rng.choice("ab")}.npy'
        key = f'{rng.randint(0, 9)}$id{n}_nearest'
        reg[key] = {'filename': name, 'method': 'nearest', 'source_shape': [4], 'target_shape': [2, 2], 'info': f'{n}'}
        if rng.random() < .6:
            np.save(os.path.join(w.tables, name), w.np.rand(3))
        elif rng.random() < .4:
            np.save(os.path.join(gl_tab, name), w.np.rand(3))
    if rng.random() < .4:
        np.save(os.path.join(w.tables, 'unused.npy'), w.np.rand(3))
    with open(jf, 'w') as f:
        json.dump(reg, f)
    before = snapshot(*watched)
    r = w.cli([rng.choice(['-K', '--checkConf'])])
    after = snapshot(*watched)
    want = dict(before)
    here = set(os.listdir(w.tables))
    want[jf] = {k: v for k, v in before[jf].items() if not isinstance(v, dict) or v['filename'] in here}
    n = len(before[jf]) - len(want[jf])
    o.check(r.ok, 'reg-check-code', lambda: f'-K: {r.brief()}')
    o.check(after == want, 'reg-check-state', lambda: f'-K with {n} entries without file: {delta(want, after)}')
    o.count('checks_conf')
    o.count('removed_entries', n)
    o.sig('K', min(n, 3), len(want[jf]) > 1)


def download(w, rng, o, watched):
    ds = rng.choice(['geopotentials', 'intertables'])
    local = w.geos if ds == 'geopotentials' else w.tables
    root = '/' + rng.choice(['pyg2p', 'data/v1'])
    files = {f'd{rng.randint(0, 9)}.{"grb" if ds == "geopotentials" else "npy"}': w.np.bytes(rng.choice([0, 10, 3000, 70000])) for _ in range(rng.randint(0, 5))}
    # names that resemble each other
    for n in list(files):
        if rng.random() < .4:
            b, e = os.path.splitext(n)
            files[rng.choice([n + '.gz', b, n + '.backup', n.upper(), b + '_1' + e, 'readme_' + n, 'x' + n, b + '.' + e])] = w.np.bytes(rng.choice([7, 500]))
    if rng.random() < .5:
        files['readme.txt'] = b'read me'
    other = 'intertables' if ds == 'geopotentials' else 'geopotentials'
    tree = {'/': {}, root: {}, f'{root}/{ds}': files, f'{root}/{other}': {'wrong.bin': b'w'}}
    for n in list(files):
        if rng.random() < .3 and n != 'readme.txt':
            with open(os.path.join(local, n), 'wb') as f:
                f.write(b'already here')
    have = set(os.listdir(local))
    todo = [n for n in sorted(files) if n not in have and n != 'readme.txt']
    fault = rng.choice([None, None, None, 'login', 'cut', 'drop', 'folder', 'pwd'])
    if fault in ('cut', 'drop') and not any(len(files[n]) > 1 for n in todo):
        fault = None
    at = 0
    if fault in ('cut', 'drop'):
        at = rng.choice([k for k, n in enumerate(todo) if len(files[n]) > 1])
    user, pwd = f'u{rng.randint(0, 99)}', f'p {rng.randint(0, 99)}'
    srv = Ftp(tree, user, pwd, fault if fault != 'folder' else None, at)
    jf = os.path.join(w.pyg2p_home, 'ftp.json')
    conf = json.load(open(jf))
    conf.update(host='127.0.0.1', folder=root if fault != 'folder' else '/not/there', user=user, pwd=pwd if fault != 'pwd' else 'wrong')
    with open(jf, 'w') as f:
        json.dump(conf, f)
    ftplib.FTP.port = srv.port
    before = snapshot(*watched)
    try:
        r = w.cli([rng.choice(['-W', '--downloadConf']), ds])
    finally:
        srv.close()
    after = snapshot(*watched)
    want = dict(before)
    what = f'-W {ds}, {len(todo)} files to fetch, fault {fault} at {at}'
    if fault is None:
        want.update({os.path.join(local, n): files[n] for n in todo})
        o.check(r.ok, 'reg-download-code', lambda: f'{what}: {r.brief()}')
        o.check(sorted(srv.served) == todo, 'reg-download-fetch', lambda: f'{what}: fetched {srv.served}, missing were {todo}')
        o.check(srv.quit == 1, 'reg-download-session', f'{what}: session not ended')
    else:
        if fault in ('cut', 'drop'):
            # whatever was complete may stay; nothing that looks complete may be partial
            want.update({os.path.join(local, n): files[n] for n in todo if after.get(os.path.join(local, n)) == files[n]})
            o.check(set(todo[:at]) <= set(os.listdir(local)), 'reg-download-complete', lambda: f'{what}: has {sorted(os.listdir(local))}')
        o.check(r.exc is not None or r.rc == 1, 'reg-download-fault-code', lambda: f'{what}: {r.brief()}')
        o.count('faults')
    good = o.check(after == want, 'reg-download-state', lambda: f'{what}: {delta(want, after)}')
    o.count('downloads')
    o.count('fetched', len(srv.served))
    o.count('kept', len(have & set(files)))
    o.sig('W', ds, fault, min(len(todo), 3), len(have & set(files)) > 0)
    if fault in ('cut', 'drop') and good:
        # the next run with a server that works completes the folder
        srv = Ftp(tree, user, pwd)
        ftplib.FTP.port = srv.port
        try:
            r = w.cli(['-W', ds])
        finally:
            srv.close()
        after = snapshot(*watched)
        want = dict(before)
        want.update({os.path.join(local, n): files[n] for n in todo})
        o.check(r.ok and after == want, 'reg-download-resume', lambda: f'{what}, then again: {r.brief()} {delta(want, after)}')


def correct(w, rng, o, geos, step):
    """a run with correction uses the file that was added for the grid of the data"""
    jf = os.path.join(w.pyg2p_home, 'geopotentials.json')
    reg = json.load(open(jf))
    done = 0
    for g in geos:
        if not any(same_grid(k, g) and v == os.path.basename(g.path) for k, v in reg.items()):
            continue
        if open(os.path.join(w.geos, os.path.basename(g.path)), 'rb').read() != g.bytes:
            continue      # the entry belongs to another file of the same grid and name
        tgt = sc.node_target(w, rng, g.src, name=f't{step}_{done}')
        dem = gen.write_pcr(w.path(f'dem{step}_{done}.map'), np.zeros(tgt.shape), tgt.gt)
        p = gen.write_grib(w.path(f'p{step}_{done}.grb'), [gen.message(g.src.grid, '2t', (0, 0), None, sc.field(w.np, g.src.n, 240, 310), bits=24)])
        v = gen.decode(p)[0]['values']
        r = sc.execute(w, p, tgt, '2t', 'nearest', None, {'@correctionFormula': 'p+gem+dem', '@gem': 'z*10', '@demMap': dem}, outdir=f'co{step}_{done}', json=f'cc{step}_{done}.json')
        sc.nc_or_pcr_check(o, r, [(0, sc.on_target(tgt, v + 10 * g.z))], 'reg-corrected', f'correction on grid {g.src.grid.key()} with {g.name} added', 'netcdf')
        o.count('corrected_runs')
        done += 1
    o.sig('run', min(done, 3))
