"""Runs in forks of a process that has everything imported and has executed nothing, and faults injected into them."""
import ctypes
import os
import pickle
import signal
import time
import traceback

OFF, COUNT, KILL, PARTIAL, FAIL_FROM, FAIL_ONCE, INTERRUPT, DELAY, HOLD = range(9)


class Patience:
    """ends when a process has not used the processor for a while (a busy machine is no hang), or at a limit"""

    def __init__(self, pid, idle, limit=240):
        self.pid, self.idle = pid, idle
        self.last = self.look = time.time()
        self.limit = self.last + limit
        self.cpu = None

    def over(self):
        now = time.time()
        if now > self.limit:
            return True
        if now > self.look + 1:
            self.look = now
            try:
                with open(f'/proc/{self.pid}/stat') as f:
                    cpu = f.read().rsplit(')', 1)[1].split()[11:15]
            except OSError:
                cpu = None
            if cpu != self.cpu:
                self.cpu, self.last = cpu, now
        return now > self.last + self.idle


def child(fn, timeout=75):
    """result of fn in a fork of this process, which never executes pyg2p itself"""
    path = os.path.join(os.environ['TMPDIR'], f'child{os.getpid()}.pickle')
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = ('ok', fn())
            except BaseException:
                res = ('error', traceback.format_exc())
            with open(path + '.tmp', 'wb') as f:
                pickle.dump(res, f)
            os.rename(path + '.tmp', path)
        finally:
            os._exit(0)
    patience = Patience(pid, timeout)
    while not patience.over():
        if os.waitpid(pid, os.WNOHANG)[0]:
            break
        time.sleep(.01)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return 'stuck', 'no end'
    if not os.path.exists(path):
        return 'died', 'process ended'
    with open(path, 'rb') as f:
        res = pickle.load(f)
    os.unlink(path)
    return res


class Fork:
    """a run that goes on next to others"""

    def __init__(self, fn, name):
        self.path = os.path.join(os.environ['TMPDIR'], f'fork{os.getpid()}_{name}.pickle')
        for p in (self.path, self.path + '.tmp'):
            if os.path.exists(p):
                os.unlink(p)
        self.pid = os.fork()
        self.over = False
        if self.pid == 0:
            try:
                try:
                    res = ('ok', fn())
                except BaseException:
                    res = ('error', traceback.format_exc())
                with open(self.path + '.tmp', 'wb') as f:
                    pickle.dump(res, f)
                os.rename(self.path + '.tmp', self.path)
            finally:
                os._exit(0)

    def ended(self):
        if not self.over and os.waitpid(self.pid, os.WNOHANG)[0]:
            self.over = True
        return self.over

    def result(self, timeout=60):
        patience = Patience(self.pid, timeout)
        while not self.ended():
            if patience.over():
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                self.over = True
                return 'stuck', 'no end'
            time.sleep(.002)
        if not os.path.exists(self.path):
            return 'died', 'process ended'
        with open(self.path, 'rb') as f:
            return pickle.load(f)


class Faults:
    """the preloaded library (harness/shim/faultfs.c)"""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.ff_count.restype = ctypes.c_long
        self.lib.ff_ops.restype = ctypes.c_char_p

    def watch(self, *folders):
        self.lib.ff_forget()
        for f in folders:
            self.lib.ff_prefix(os.path.abspath(f).encode())

    def marks(self, here, go, waiting):
        self.lib.ff_marks(here.encode(), go.encode(), waiting.encode())

    def arm(self, mode, n=0, err=28, reads=False, seed=1, us=0):
        self.lib.ff_arm(mode, ctypes.c_long(n), err, int(reads), seed, ctypes.c_long(us))

    def off(self):
        n, ops = self.lib.ff_count(), self.lib.ff_ops().decode().split()
        self.arm(OFF)
        return n, ops


def warm(path):
    """lets ecCodes read its definitions before the forks are made"""
    import eccodes as ec
    ix = ec.codes_index_new_from_file(path, ['shortName', 'level'])
    for k in ('shortName', 'level'):
        ec.codes_index_get(ix, k)
    ec.codes_index_release(ix)
    with open(path, 'rb') as f:
        h = ec.codes_grib_new_from_file(f)
        for k in ('shortName', 'gridType', 'stepRange', 'stepType', 'startStep', 'endStep', 'units', 'name', 'missingValue', 'numberOfValues', 'type', 'level'):
            if ec.codes_is_defined(h, k):
                ec.codes_get(h, k)
        for k in ('values', 'latitudes', 'longitudes'):
            ec.codes_get_double_array(h, k)
        ec.codes_release(h)
