"""The linear operator a run applies, read out through the real command line: one GRIB message per source point, one map per message."""
import numpy as np

import gen
import scene as sc


def unit_messages(grid, n, short='2t'):
    out = []
    for k in range(n):
        v = np.zeros(n)
        v[k] = 1.
        out.append(gen.message(grid, short, (k, k), None, v))
    return out


def extract(w, src, tgt, mode, interp=None, name='unit', outdir='unit', create=True, args=(), grib=None):
    """(W, run): W[cell, source point] (rows of nan: the cell is missing); None when the run failed"""
    p = grib or gen.write_grib(w.path(name + '.grb'), unit_messages(src.grid, src.n))
    run = sc.execute(w, p, tgt, '2t', mode, None, None, None, interp, 'netcdf', outdir=outdir, create=create, json=name + '.json', args=args)
    if not run.ok or len(run.frames) != src.n:
        return None, run, p
    return np.stack([f.ravel() for _, f in run.frames], 1), run, p
