#!/usr/bin/env python3
"""seedtool.py SPEC.py... [--notest] [--nocheck] [-j N] : plant, confirm and store a change.

SPEC: PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (python text, defines demo() -> complaints, uses kit/gen). The id is the file name.
Everything runs in a scratch copy of /repo; with --recheck ID... the stored patches are run against the checks again.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy_repo(tmp):
    dst = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', dst])
    return dst


def stable(repo, tmp):
    s = open('/opt/vp/test.sh').read().replace('/repo', repo)
    p = os.path.join(tmp, 'test.sh')
    open(p, 'w').write(s)
    out = os.path.join(tmp, 'o.json')
    env = dict(os.environ, PYTHONPATH=os.path.join(repo, 'src'))
    r = sh(f'bash {p} {out}', env=env)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    d = json.load(open(out))
    passed = set(d.get('passed') or [k for k, v in d.get('tests', d).items() if v in ('pass', 'passed')])
    miss = base - passed
    return not miss, f'{sorted(miss)[:4]} {r.stdout[-300:] if miss else ""}'


def demo(d, repo):
    t = time.time()
    r = sh(f'bash {d}/demo.sh', cwd=repo, timeout=300, env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'})
    return r.returncode, r.stdout[-900:], time.time() - t


def check(prop, repo, tier='quick'):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER=tier)
    r = sh(f'{PY} {V}/harness/check.py {prop}', env=env, cwd=V)
    viol = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION property=' + prop)]
    return r.returncode, bool(viol), r.stdout[-900:]


def one(spec, notest, nocheck):
    sid = os.path.basename(spec)[:-3]
    ns = {}
    exec(open(spec).read(), ns)
    tmp = tempfile.mkdtemp(prefix='seed_')
    msg = [sid]
    try:
        repo = copy_repo(tmp)
        d = os.path.join(tmp, 'seed')
        os.makedirs(d)
        shutil.copy(os.path.join(V, 'tools', 'kit.py'), d)
        shutil.copy(os.path.join(V, 'harness', 'lib', 'gen.py'), d)
        open(os.path.join(d, 'demo.py'), 'w').write('from kit import *\n\n' + ns['DEMO'].strip() + '\n\n\nmain(demo)\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        rc, out, w = demo(d, repo)
        if rc != 0:
            return sid, False, f'demo fails on clean tree rc={rc}: {out}'
        for path, old, new in ns['EDITS']:
            p = os.path.join(repo, 'src/pyg2p', path)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, False, f'{path}: {s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
            compile(open(p).read(), p, 'exec')
        diff = sh('git diff', cwd=repo).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        rc2, out2, w2 = demo(d, repo)
        if rc2 == 0:
            return sid, False, 'demo passes with the change'
        msg.append(f'demo ok ({w:.0f}s) -> {rc2}: {out2.strip()[-200:]}')
        if not notest:
            ok, why = stable(repo, tmp)
            if not ok:
                return sid, False, f'stable tests: {why}'
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(V, 'seeded', sid)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        caught = '-'
        if not nocheck:
            rc, v, o = check(ns['PROP'], repo)
            caught = 'CAUGHT' if rc == 1 and v else f'MISSED rc={rc} {o[-500:]}'
        return sid, True, ' | '.join(msg[1:]) + ' | ' + caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def recheck(sid):
    d = os.path.join(V, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = copy_repo(tmp)
        r = sh(f'git apply {d}/patch.diff', cwd=repo)
        if r.returncode:
            return sid, False, 'patch does not apply: ' + r.stdout
        rc, v, o = check(prop, repo)
        return sid, rc == 1 and v, prop + (' CAUGHT' if rc == 1 and v else f' MISSED rc={rc} {o[-400:]}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    notest, nocheck = '--notest' in a, '--nocheck' in a
    j = int(a[a.index('-j') + 1]) if '-j' in a else 2
    names = [x for i, x in enumerate(a) if not x.startswith('-') and (i == 0 or a[i - 1] != '-j')]
    if '--recheck' in a:
        names = names or sorted(os.listdir(os.path.join(V, 'seeded')))
        for n in names:
            print(*recheck(n), flush=True)
        return
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, n, notest, nocheck) for n in names]):
            print(*f.result(), flush=True)


main()
