"""Execution world: one scratch HOME/cwd in which the real pyg2p code is imported and driven.

Nothing here knows how pyg2p computes things: it runs the command line entry point or the documented API
classes and hands back exit code, log records and output files.
"""
import logging
import os
import shutil
import sys
import time
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


class Result:
    def __init__(self):
        self.rc = None
        self.exc = None
        self.log = []
        self.wall = 0.

    @property
    def ok(self):
        return self.exc is None and self.rc == 0

    def brief(self):
        errs = [m for lv, m in self.log if lv in ('ERROR', 'CRITICAL')]
        return f'rc={self.rc} exc={type(self.exc).__name__ + ": " + str(self.exc)[:300] if self.exc else None} errors={[e.strip()[:200] for e in errs][:3]}'


class _Collect(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        if len(self.records) < 5000:
            try:
                self.records.append((record.levelname, record.getMessage()))
            except Exception:
                self.records.append((record.levelname, str(record.msg)))


def source_dir(repo=None):
    return os.path.join(repo or REPO, 'src')


class World:
    def __init__(self, base):
        self.base = os.path.abspath(base)
        self.home = os.path.join(self.base, 'home')
        self.cwd = os.path.join(self.base, 'cwd')
        self.case = os.path.join(self.base, 'case')
        self.logfile = os.path.join(self.base, 'worker.log')
        for d in (self.home, self.cwd, self.case):
            os.makedirs(d, exist_ok=True)
        shutil.copytree(os.path.join(REPO, 'configuration'), os.path.join(self.cwd, 'configuration'), dirs_exist_ok=True)
        self.pyg2p_home = os.path.join(self.home, '.pyg2p')
        self._imported = False
        self.n_runs = self.n_cases = self.n_resets = 0

    # -- set up -----------------------------------------------------------------------------------------------
    def activate(self, quiet=True):
        os.environ['HOME'] = self.home
        os.chdir(self.cwd)
        sys.dont_write_bytecode = True
        if quiet:
            fd = os.open(self.logfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.close(fd)
        if source_dir() not in sys.path:
            sys.path.insert(0, source_dir())
        warnings.simplefilter('ignore')
        import pyg2p
        got = os.path.dirname(os.path.abspath(pyg2p.__file__))
        want = os.path.join(os.path.abspath(source_dir()), 'pyg2p')
        if got != want:
            raise RuntimeError(f'pyg2p imported from {got}, expected {want}')
        import pyg2p.main  # noqa: F401
        from osgeo import gdal
        gdal.DontUseExceptions()
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        self._collector = _Collect()
        root.addHandler(self._collector)
        self._imported = True

    def trim_log(self):
        try:
            if os.path.getsize(self.logfile) > 2_000_000:
                os.truncate(self.logfile, 0)
        except OSError:
            pass

    def wipe(self, path):
        path = os.path.abspath(path)
        assert path.startswith(self.base + os.sep), path
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        elif os.path.lexists(path):
            os.unlink(path)

    def new_case(self):
        """Fresh case folder and fresh user configuration with both data folders defined."""
        self.wipe(self.case)
        self.wipe(self.pyg2p_home)
        # never the same paths twice: whatever the process remembers by path from an earlier case cannot apply
        self.n_cases += 1
        self.case = os.path.join(self.base, f'case{self.n_cases}')
        os.makedirs(self.case)
        os.makedirs(self.pyg2p_home)
        self.tables = os.path.join(self.case, 'tables')
        self.geos = os.path.join(self.case, 'geos')
        self.out = os.path.join(self.case, 'out')
        for d in (self.tables, self.geos, self.out):
            os.makedirs(d)
        self.write_conf({'INTERTABLES': self.tables, 'GEOPOTENTIALS': self.geos})
        self.trim_log()
        self.fresh()
        return self.case

    def reset_home(self):
        """Forget user configuration and tables, keep the case inputs."""
        for d in (self.tables, self.pyg2p_home):
            self.wipe(d)
        self.n_resets += 1
        self.tables = os.path.join(self.case, f'tables{self.n_resets}')
        for d in (self.tables, self.pyg2p_home):
            os.makedirs(d)
        self.write_conf({'INTERTABLES': self.tables, 'GEOPOTENTIALS': self.geos})
        self.fresh()

    def write_conf(self, d, name='paths.conf'):
        with open(os.path.join(self.pyg2p_home, name), 'w') as f:
            for k, v in d.items():
                f.write(f'{k}={v}\n')

    def path(self, *p):
        return os.path.join(self.case, *p)

    def outdir(self, name):
        d = os.path.join(self.case, name)
        os.makedirs(d, exist_ok=True)
        return d

    def fresh(self):
        """Drop whatever the process remembers from earlier runs (a new process would start like this)."""
        if not self._imported:
            return
        try:
            from pyg2p.main.interpolation import Interpolator
            Interpolator._LOADED_INTERTABLES.clear()
        except Exception:
            pass
        try:
            from pyg2p.main.manipulation.correction import Corrector
            Corrector.instances.clear()
        except Exception:
            pass
        try:
            from pyg2p.main.config import GlobalConf
            GlobalConf.instance = None
        except Exception:
            pass

    # -- drive ------------------------------------------------------------------------------------------------
    def _run(self, fn):
        r = Result()
        self._collector.records = []
        root = logging.getLogger()
        root.setLevel(logging.INFO)
        t = time.time()
        try:
            r.rc = fn()
        except SystemExit as e:
            r.rc = e.code
            r.exc = e
        except Exception as e:  # noqa: BLE001 - whatever escapes is the observation
            r.exc = e
        r.wall = time.time() - t
        r.log = self._collector.records
        self._collector.records = []
        self.n_runs += 1
        return r

    def cli(self, argv, fresh=True):
        if fresh:
            self.fresh()
        from pyg2p.main import pyg2p_exe
        return self._run(lambda: pyg2p_exe([str(a) for a in argv]))

    def api(self, conf, fresh=True):
        """Returns (Result, OrderedDict of Step->array or None)"""
        if fresh:
            self.fresh()
        from pyg2p.main.api import ApiContext, Pyg2pApi
        box = {}

        def go():
            api = Pyg2pApi(ApiContext(conf))
            box['values'] = api.execute()
            box['api'] = api
            return 0
        r = self._run(go)
        return r, box.get('values')
