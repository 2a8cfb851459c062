"""Small driver shared by the demonstrations: a scratch HOME and cwd, the real pyg2p from ./src of the current folder."""
import os
import shutil
import sys
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
BASE = tempfile.mkdtemp(prefix='demo_')
os.environ['HOME'] = os.path.join(BASE, 'home')
os.environ['NUMBA_CACHE_DIR'] = os.path.join(BASE, 'nb')
os.environ['NUMBA_THREADING_LAYER'] = 'workqueue'
os.environ['TMPDIR'] = BASE
sys.dont_write_bytecode = True
CONF = os.path.join(BASE, 'home', '.pyg2p')
TABLES = os.path.join(BASE, 'tables')
GEOS = os.path.join(BASE, 'geos')
CWD = os.path.join(BASE, 'cwd')
for d in (CONF, TABLES, GEOS, CWD):
    os.makedirs(d)
shutil.copytree(os.path.join(REPO, 'configuration'), os.path.join(CWD, 'configuration'))
with open(os.path.join(CONF, 'paths.conf'), 'w') as f:
    f.write(f'INTERTABLES={TABLES}\nGEOPOTENTIALS={GEOS}\n')
os.chdir(CWD)
sys.path[:0] = [os.path.join(REPO, 'src'), HERE]
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402,F401
import gen  # noqa: E402
import pyg2p  # noqa: E402
assert os.path.abspath(pyg2p.__file__).startswith(os.path.abspath(os.path.join(REPO, 'src'))), pyg2p.__file__
import pyg2p.main  # noqa: E402


def path(*a):
    return os.path.join(BASE, *a)


def fresh():
    from pyg2p.main.interpolation import Interpolator
    from pyg2p.main.manipulation.correction import Corrector
    from pyg2p.main.config import GlobalConf
    Interpolator._LOADED_INTERTABLES.clear()
    Corrector.instances.clear()
    GlobalConf.instance = None


def cli(*argv):
    """exit code of one command line run (None: it raised)"""
    so = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    try:
        return pyg2p.main.pyg2p_exe([str(a) for a in argv])
    except Exception as e:  # noqa: BLE001
        print('raised', type(e).__name__, e, file=sys.stderr)
        return None
    finally:
        sys.stdout.flush()
        os.dup2(so, 1)
        os.close(dn)
        os.close(so)


def maps(lats, lons, missing=None, name='t', gt=None):
    lats, lons = np.asarray(lats, float), np.asarray(lons, float)
    gt = gt or (0., 1., 0., float(lats.shape[0]), 0., -1.)
    p = [path(f'{name}_{k}.map') for k in ('lat', 'lon', 'clone')]
    gen.write_pcr(p[0], lats, gt)
    gen.write_pcr(p[1], lons, gt)
    gen.write_pcr(p[2], np.ones(lats.shape), gt, missing)
    return p


def node_maps(grid, idx, name='t', missing=None, gt=None):
    la, lo = gen.grid_latlons(grid)
    idx = np.asarray(idx)
    return maps(la[idx], lo[idx], missing, name, gt)


def out(name='out'):
    d = path(name)
    os.makedirs(d, exist_ok=True)
    return d


def nc(folder):
    f = [x for x in sorted(os.listdir(folder)) if x.endswith('.nc')]
    return gen.read_nc(os.path.join(folder, f[0])) if f else None


def pcr(folder):
    return {f: gen.read_pcr(os.path.join(folder, f))[0] for f in sorted(os.listdir(folder)) if not f.endswith('.xml')}


def finish(bad):
    """bad: list of complaints"""
    for b in bad[:5]:
        print('BROKEN:', b)
    os.chdir('/')
    shutil.rmtree(BASE, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(1 if bad else 0)


def main(fn):
    import traceback
    try:
        bad = fn() or []
    except Exception:
        bad = [traceback.format_exc()[-1500:]]
    finish(bad)
