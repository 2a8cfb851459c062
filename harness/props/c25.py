"""C25 commands of the Python API (builder, strings, run_command) run like the command line with the same arguments."""
import os
import pathlib

import execs as ex_
import gen
import scene as sc

QUICK, THOROUGH, WORKERS = 300, 6000, 8
LEVEL = 'exploration'
CASE_TIMEOUT = 120
RULE = 'distinct (options given, way of building the command, types of the values, result) commands compared with the command line'
REQUIRE = {'commands': 250, 'strings': 80, 'builders': 80, 'mixed': 40, 'same_outputs': 150, 'errors': 20, 'flags': 80, 'negative': 15, 'spaces': 15, 'variables': 30, 'overridden': 15, 'overridden_long': 8, 'log_dir': 2}
ASSUMPTIONS = ['values of command strings with spaces are in double quotes; values of variables have no spaces']

BUILD = {'-c': 'cmdpath', '-i': 'inputfile', '-I': 'second_input_file', '-m': 'eps', '-e': 'tend', '-s': 'tstart', '-T': 'datatime', '-D': 'datadate', '-x': 'ext', '-f': 'fmap', '-o': 'outdir',
         '-n': 'nameprefix', '-S': 'scaleFactor', '-O': 'offset', '-vM': 'validMax', '-vm': 'validMin', '-vf': 'valueFormat', '-l': 'log_level', '-F': 'out_format', '-U': 'outputStepUnits',
         '-B': 'create_intertable', '-X': 'parallel', '-N': 'intertable_dir'}
LONG = {'-c': '--commandsFile', '-i': '--inputFile', '-I': '--inputFile2', '-m': '--perturbationNumber', '-e': '--end', '-s': '--start', '-T': '--dataTime', '-D': '--dataDate', '-x': '--ext', '-f': '--fmap',
        '-o': '--outDir', '-n': '--namePrefix', '-S': '--scaleFactor', '-O': '--offset', '-vM': '--validMax', '-vm': '--validMin', '-vf': '--valueFormat', '-F': '--format',
        '-U': '--outputStepUnits', '-B': '--createIntertable', '-X': '--interpolationParallel', '-N': '--intertableDir'}

STALE = {'-s': 0, '-e': 6, '-x': 7, '-f': 90, '-n': 'old', '-m': 1, '-i': 'none.grb', '-O': -1}


def run(w, rng, o, i):
    space = rng.random() < .3
    ex = ex_.compose(w, rng, kinds=('inst', 'accum', 'members', 'dates', 'two', 'level'), modes=['nearest', 'invdist', 'grib_nearest', 'bilinear'], netcdf_targets=False, correction=.15,
                     sub='a folder' if space else None)
    if not ex_.register(w, ex, o, 'command-geo'):
        return
    fmt = rng.choice(['netcdf', 'pcraster'])
    j = gen.write_json(w.path('a folder', 'the file.json') if space else w.path('c.json'), ex.doc) or (w.path('a folder', 'the file.json') if space else w.path('c.json'))
    args = {'-c': j, '-i': ex.grib}
    if ex.grib2:
        args['-I'] = ex.grib2
    names = {'start': '-s', 'end': '-e', 'perturbationNumber': '-m', 'dataTime': '-T', 'dataDate': '-D'}
    for k, v in ex.sel.items():
        args[names[k]] = v
    if fmt == 'netcdf' or rng.random() < .5:
        args['-F'] = fmt
    opt = [('-x', lambda: rng.randint(1, 4)), ('-f', lambda: rng.randint(1, 40)), ('-n', lambda: rng.choice(['pre', 'T24', 'a.b', 'x_y', 'a=b' if fmt == 'pcraster' else 'a-b'])), ('-l', lambda: rng.choice(['ERROR', 'WARNING', 'INFO']))]
    if fmt == 'netcdf':
        opt += [('-S', lambda: rng.choice([.5, '0.01', 2])), ('-O', lambda: rng.choice([-273.15, '-10', 4, '5.5'])), ('-vM', lambda: rng.choice([300, '-1.5', 1e3])), ('-vm', lambda: rng.choice([-40, '-.5', 0, 250])),
                ('-vf', lambda: rng.choice(['f4', 'f8', 'i4'])), ('-U', lambda: rng.choice(['h', 'D', '3h']))]
    for k, f in opt:
        if rng.random() < .35:
            args[k] = f()
    if rng.random() < .85:
        args['-B'] = None
    if rng.random() < .3 and not ex.feat['mode'].startswith('grib'):
        args['-X'] = None
    if rng.random() < .3:
        args['-N'] = w.outdir('ta bles' if space else 'tab')
    # mistakes are reported the same way
    wrong = rng.choice(['file', 'json', 'option', 'value', 'window', 'member']) if rng.random() < .2 else None
    if wrong == 'file':
        args['-i'] = w.path('none.grb')
    elif wrong == 'json':
        args['-c'] = w.path('none.json')
    elif wrong == 'option':
        args['-q'] = 3
    elif wrong == 'value':
        args[rng.choice(['-s', '-f', '-F'])] = 'abc'
    elif wrong == 'window':
        args['-s'], args['-e'] = 12, 6
    elif wrong == 'member':
        args['-m'] = 77
    what = ex.key()

    def final(od):
        return dict(args, **{'-o': od})

    def values(od):
        return {k: (None if v is None else str(v)) for k, v in final(od).items()}
    od = w.outdir('o ut' if space else 'out_cli')
    argv = [x for k, v in values(od).items() for x in ((k,) if v is None else (k, v))]
    ref = once(w, ex, od, lambda: cli(argv))
    if wrong is None and '-B' in args:
        o.check(ref[0] in (0, 1), 'command-reference', lambda: f'{argv}: {ref}')
    if i % 40 == 3:
        od = w.outdir('out_log')
        cmd, text = build(w, rng, o, 'builder', final(od), values(od))
        got = once(w, ex, od, lambda: cmd.with_log_dir(w.outdir('logs')).run())
        o.count('log_dir')
        o.check(got[0] == ref[0], 'command-log-dir', lambda: f'{text}.with_log_dir(): returned {got[0]} {got[2]}, without it {ref[0]}')
    for n in range(2 if w.tier == 'quick' else 4):
        way = rng.choice(['string', 'builder', 'mixed'])
        od = w.outdir((f'o ut{n}' if space else rng.choice([f'out{n}', f'out{n}', f'out{n}_pyg2p', f'out{n}_pyg2p.py'])))
        cmd, text = build(w, rng, o, way, final(od), values(od))
        runner = rng.choice(['run', 'run_command', 'text'])
        got = once(w, ex, od, lambda: launch(cmd, runner))
        o.count('commands')
        o.count({'string': 'strings', 'builder': 'builders', 'mixed': 'mixed'}[way])
        if space:
            o.count('spaces')
        where = f'{what} [{runner}] {text} -> {cmd}; command line {argv}'
        o.check(got[0] == ref[0], 'command-status', lambda: f'{where}: returned {got[0]} {got[2]}, command line {ref[0]} {ref[2]}')
        d = ex_.differ(ref[1], got[1])
        o.check(d is None, 'command-output', lambda: f'{where}: {d}')
        if ref[0] == 0 and ref[1]:
            o.count('same_outputs')
        elif ref[0] != 0:
            o.count('errors')
        if '-B' in args or '-X' in args:
            o.count('flags')
        if any(v is not None and str(v).startswith('-') for v in args.values()):
            o.count('negative')
        o.sig(','.join(sorted(args)), way, runner, wrong, ref[0])


def once(w, ex, od, fn):
    w.reset_home()
    ex_.parameters(w)
    for g in ex.geos:
        w.cli(['-g', g])
    w.fresh()
    r = w._run(fn)
    rc = r.rc if r.exc is None else ('exit', r.exc.code) if isinstance(r.exc, SystemExit) else type(r.exc).__name__
    return rc, ex_.content(od), r.brief()


def cli(argv):
    from pyg2p.main import pyg2p_exe
    return pyg2p_exe(list(argv))


def launch(cmd, runner):
    from pyg2p.main import api
    return cmd.run() if runner == 'run' else api.run_command(cmd if runner == 'run_command' else str(cmd))


def quoted(v):
    return f'"{v}"' if ' ' in v else v


def as_text(w, rng, o, vals, raw, stale):
    """options of a command string in random order, with variables"""
    parts, var = [], {}
    items = list(vals.items())
    rng.shuffle(items)
    # values given again later, in the string or with the builder
    both = {k for k in stale if k in vals and k in LONG and rng.random() < .4}
    for k, v in stale.items():
        parts.append(f"{LONG[k]}{rng.choice('= ')}{v}" if k in both else f'{k} {v}')
    if stale:
        o.count('overridden')
        o.count('overridden_long', bool(both))
    for k, v in items:
        name = LONG.get(k, k) if k in both or rng.random() < .25 and k not in stale else k
        if v is None:
            parts.append(name)
            continue
        r = rng.random()
        if r < (.5 if os.sep in v else .2) and ' ' not in v and '=' not in v:
            x = f'v{len(var)}'
            if os.sep in v and rng.random() < .6:
                d = os.path.dirname(v)
                x = next((y for y in var if str(var[y]) == d), x)
                var[x] = pathlib.Path(d)
                v = '{%s}/%s' % (x, os.path.basename(v))
            else:
                var[x] = pathlib.Path(v) if os.sep in v and rng.random() < .5 else raw[k]
                v = '{%s}' % x
            o.count('variables')
        if name.startswith('--') and ' ' not in v and rng.random() < .4:
            parts.append(f'{name}={v}')
        else:
            parts.append(f'{name} {quoted(v)}')
    return rng.choice(['', '', 'pyg2p ', 'pyg2p.py ']) + ' '.join(parts), var


def build(w, rng, o, way, raw, vals):
    from pyg2p.main import api
    keys = list(vals)
    rng.shuffle(keys)
    n = {'string': len(keys), 'builder': 0, 'mixed': rng.randint(1, len(keys) - 1)}[way]
    first = set(keys[:n]) | {k for k in keys if k not in BUILD}
    stale = {k: v for k, v in STALE.items() if k in vals and rng.random() < .15}
    log = ''
    if first:
        text, var = as_text(w, rng, o, {k: vals[k] for k in first}, raw, stale)
        cmd = api.command(text, **var) if rng.random() < .7 else api.Command(text, **var)
        log = f'{text!r} {var}'
    else:
        cmd = api.command() if rng.random() < .7 else api.Command()
    for k in keys:
        if k in first:
            continue
        f = getattr(cmd, 'with_' + BUILD[k])
        v = raw[k]
        if v is None:
            r = f()
        else:
            r = f(pathlib.Path(v) if isinstance(v, str) and os.sep in v and rng.random() < .3 else v if rng.random() < .5 else str(v))
        log += f' .with_{BUILD[k]}({v!r})'
        if rng.random() < .5:
            cmd = r
    return cmd, log
