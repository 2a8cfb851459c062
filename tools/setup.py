"""Nothing is compiled: the checks import /repo's working tree. This only verifies that the runtime they need is there."""
import importlib
for m in ('numpy', 'eccodes', 'netCDF4', 'osgeo.gdal', 'numexpr', 'scipy', 'numba', 'dask'):
    importlib.import_module(m)
print('ready')
