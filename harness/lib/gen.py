"""Input generators: GRIB messages, PCRaster / netCDF maps, command files.

Everything is synthesised from the ecCodes samples, so a case is reproducible
from (seed, index) alone and nothing from the repository's test data is needed.
"""
import json
import os

import eccodes as ec
import numpy as np

# shortName -> (paramId GRIB1/2, natural stepType)
PARAMS = {'orog': (228002, 'instant'), 'FIS': (500004, 'instant'), 
    '2t': (167, 'instant'), '2d': (168, 'instant'), '10u': (165, 'instant'), '10v': (166, 'instant'),
    'tp': (228, 'accum'), 'e': (182, 'accum'), 'cp': (143, 'accum'), 'lsp': (142, 'accum'),
    'ssr': (176, 'accum'), 'sro': (8, 'accum'), 'z': (129, 'instant'), 'swvl1': (39, 'instant'), 'sd': (141, 'instant'),
    't': (130, 'instant'), 'u': (131, 'instant'), 'q': (133, 'instant'), 'sf': (144, 'accum'), 'slhf': (147, 'accum'), 'pev': (228251, 'accum'),
}


class Grid:
    """Description of a source grid. kind: regular_ll | rotated_ll | reduced_gg | regular_gg"""

    def __init__(self, kind='regular_ll', ni=8, nj=6, lat1=60., lon1=0., dlat=1., dlon=1., edition=1,
                 south_pole=(-40., 10.), N=32):
        self.kind, self.ni, self.nj, self.lat1, self.lon1 = kind, ni, nj, lat1, lon1
        self.dlat, self.dlon, self.edition, self.south_pole, self.N = dlat, dlon, edition, south_pole, N

    def sample(self):
        return {'regular_ll': f'regular_ll_sfc_grib{self.edition}',
                'rotated_ll': f'rotated_ll_sfc_grib{self.edition}',
                'reduced_gg': f'reduced_gg_sfc_grib{self.edition}',
                'regular_gg': f'regular_gg_sfc_grib{self.edition}'}[self.kind]

    def apply(self, h):
        if self.kind in ('regular_ll', 'rotated_ll'):
            lat2 = self.lat1 - (self.nj - 1) * self.dlat
            lon2 = self.lon1 + (self.ni - 1) * self.dlon
            ec.codes_set(h, 'Ni', self.ni)
            ec.codes_set(h, 'Nj', self.nj)
            for k, v in (('latitudeOfFirstGridPointInDegrees', self.lat1),
                         ('longitudeOfFirstGridPointInDegrees', self.lon1),
                         ('latitudeOfLastGridPointInDegrees', lat2),
                         ('longitudeOfLastGridPointInDegrees', lon2),
                         ('iDirectionIncrementInDegrees', self.dlon),
                         ('jDirectionIncrementInDegrees', self.dlat)):
                ec.codes_set(h, k, v)
            if self.kind == 'rotated_ll':
                ec.codes_set(h, 'latitudeOfSouthernPoleInDegrees', self.south_pole[0])
                ec.codes_set(h, 'longitudeOfSouthernPoleInDegrees', self.south_pole[1])

    def size(self):
        if self.kind in ('regular_ll', 'rotated_ll'):
            return self.ni * self.nj
        h = ec.codes_grib_new_from_samples(self.sample())
        try:
            return ec.codes_get_size(h, 'values')
        finally:
            ec.codes_release(h)

    def key(self):
        return (self.kind, self.ni, self.nj, self.lat1, self.lon1, self.dlat, self.dlon, self.edition, self.south_pole)


def message(grid, short='2t', step=(0, 0), step_type=None, values=None, mask=None, level=0, level_type=None,
            date=20240115, time=0, member=None, bits=24, units=None, mv=9999.):
    """Return the bytes of one GRIB message. mask: True where missing."""
    h = ec.codes_grib_new_from_samples(grid.sample())
    try:
        grid.apply(h)
        if member is not None:
            if grid.edition == 1:
                ec.codes_set(h, 'setLocalDefinition', 1)
                ec.codes_set(h, 'localDefinitionNumber', 1)
                ec.codes_set(h, 'type', 'pf')
                ec.codes_set(h, 'stream', 'enfo')
                ec.codes_set(h, 'perturbationNumber', member)
            else:
                ec.codes_set(h, 'productDefinitionTemplateNumber', 1)
                ec.codes_set(h, 'perturbationNumber', member)
        ec.codes_set(h, 'dataDate', date)
        ec.codes_set(h, 'dataTime', time)
        pid, nat = PARAMS[short]
        if short == 'FIS':
            ec.codes_set(h, 'centre', 'edzw')
        st = step_type or nat
        if grid.edition == 2:
            if st != 'instant':
                ec.codes_set(h, 'productDefinitionTemplateNumber', 8 if member is None else 11)
            ec.codes_set(h, 'paramId', pid)
            ec.codes_set(h, 'stepType', st)
        else:
            ec.codes_set(h, 'paramId', pid)
            ec.codes_set(h, 'stepType', st)
        if level_type:
            ec.codes_set(h, 'typeOfLevel', level_type)
            ec.codes_set(h, 'level', level)
        if st == 'instant':
            ec.codes_set(h, 'stepRange', str(step[1]))
        else:
            ec.codes_set(h, 'stepRange', f'{step[0]}-{step[1]}')
        vals = np.array(values, dtype=float).ravel().copy()
        ec.codes_set(h, 'bitsPerValue', bits)
        ec.codes_set(h, 'missingValue', mv)
        if mask is not None and np.any(mask):
            vals[np.asarray(mask).ravel()] = mv
            ec.codes_set(h, 'bitmapPresent', 1)
        ec.codes_set_values(h, vals)
        return ec.codes_get_message(h)
    finally:
        ec.codes_release(h)


def write_grib(path, msgs):
    with open(path, 'wb') as f:
        for m in msgs:
            f.write(m)
    return path


def decode(path):
    """Independent decode: list of dicts with values (nan at missing), lats, lons and the keys used by the oracles."""
    out = []
    with open(path, 'rb') as f:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                break
            try:
                v = ec.codes_get_double_array(h, 'values')
                if ec.codes_get(h, 'bitmapPresent'):
                    bm = ec.codes_get_array(h, 'bitmap', int)
                    v = np.where(bm == 0, np.nan, v)
                d = dict(values=v, lats=ec.codes_get_double_array(h, 'latitudes'),
                         lons=ec.codes_get_double_array(h, 'longitudes'),
                         short=ec.codes_get(h, 'shortName'), start=ec.codes_get(h, 'startStep', int),
                         end=ec.codes_get(h, 'endStep', int), stepType=ec.codes_get(h, 'stepType'),
                         level=ec.codes_get(h, 'level'), date=ec.codes_get(h, 'dataDate'), gridType=ec.codes_get(h, 'gridType'),
                         time=ec.codes_get(h, 'dataTime'), Nj=ec.codes_get(h, 'Nj'),
                         radius=ec.codes_get(h, 'radius', float) if ec.codes_is_defined(h, 'radius') else 6371229.)
                out.append(d)
            finally:
                ec.codes_release(h)
    return out


def grid_latlons(grid):
    h = ec.codes_grib_new_from_samples(grid.sample())
    try:
        grid.apply(h)
        ec.codes_set_values(h, np.zeros(grid.size()))
        return ec.codes_get_double_array(h, 'latitudes'), ec.codes_get_double_array(h, 'longitudes')
    finally:
        ec.codes_release(h)


PCR_MV = -3.4028234663852886e+38


def write_pcr(path, arr, gt=None, missing=None, scale='VS_SCALAR'):
    """PCRaster REAL4 map; missing: boolean array."""
    from osgeo import gdal
    a = np.array(arr, dtype=np.float32)
    if missing is not None:
        a = a.copy()
        a[missing] = PCR_MV
    gt = gt or (0., 1., 0., float(a.shape[0]), 0., -1.)
    m = gdal.GetDriverByName('MEM').Create('', a.shape[1], a.shape[0], 1, gdal.GDT_Float32)
    m.SetGeoTransform(gt)
    b = m.GetRasterBand(1)
    b.SetNoDataValue(PCR_MV)
    b.WriteArray(a)
    o = gdal.GetDriverByName('PCRaster').CreateCopy(path, m, options=['PCRASTER_VALUESCALE=' + scale])
    o = None
    for p in (path + '.aux.xml',):
        if os.path.exists(p):
            os.unlink(p)
    return path


def read_pcr(path):
    """(values with nan at missing, geotransform)"""
    from osgeo import gdal
    d = gdal.Open(path)
    b = d.GetRasterBand(1)
    a = b.ReadAsArray().astype(float)
    mv = b.GetNoDataValue()
    a[a == mv] = np.nan
    gt = d.GetGeoTransform()
    return a, gt


def write_nc_map(path, lats1d, lons1d, arr=None, missing=None, names=('lat', 'lon'), var='area', mv=-9999., dtype='f8', attr='both'):
    """attr: how missing cells are declared (both, fill, missing, none: nan or the default fill of the type)"""
    from netCDF4 import Dataset
    with Dataset(path, 'w', format='NETCDF4_CLASSIC') as d:
        d.createDimension(names[0], len(lats1d))
        d.createDimension(names[1], len(lons1d))
        a = d.createVariable(names[0], 'f8', (names[0],))
        a[:] = lats1d
        o = d.createVariable(names[1], 'f8', (names[1],))
        o[:] = lons1d
        from netCDF4 import default_fillvals
        if attr == 'none':
            mv = np.nan if dtype[0] == 'f' else default_fillvals[dtype]
        elif dtype[0] != 'f':
            mv = int(mv) if abs(mv) < 100 else -99
        v = d.createVariable(var, dtype, names, fill_value=mv if attr in ('both', 'fill') else False if np.isnan(mv) else None)
        if attr in ('both', 'missing'):
            v.missing_value = np.array(mv, dtype)
        x = np.ones((len(lats1d), len(lons1d))) if arr is None else np.array(arr, float)
        if missing is not None:
            x = x.copy()
            x[missing] = mv
        v[:] = x
    return path


def read_nc(path, var=None):
    """Raw + decoded view of an output netCDF file."""
    from netCDF4 import Dataset
    with Dataset(path) as d:
        names = [k for k in d.variables if k not in ('lat', 'lon', 'time')]
        var = var or names[0]
        v = d.variables[var]
        v.set_auto_maskandscale(True)
        dec = np.ma.filled(np.ma.asarray(v[:]).astype(float), np.nan)
        v.set_auto_maskandscale(False)
        raw = v[:]
        t = d.variables['time']
        res = dict(values=dec, raw=np.array(raw), dtype=v.dtype.str[1:], attrs={k: v.getncattr(k) for k in v.ncattrs()},
                   time=np.array(t[:]), time_units=t.units, time_calendar=t.calendar, var=var, vars=names,
                   lat=np.ma.filled(d.variables['lat'][:].astype(float), np.nan),
                   lon=np.ma.filled(d.variables['lon'][:].astype(float), np.nan),
                   gattrs={k: d.getncattr(k) for k in d.ncattrs()}, model=d.data_model,
                   unlimited=d.dimensions['time'].isunlimited(), dims=v.dimensions)
    return res


def write_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1)
    return path


def command_json(path, short='2t', lat=None, lon=None, clone=None, mode='nearest', interp=None, out=None, param=None,
                 aggregation=None, name='case'):
    d = {'Execution': {'@name': name,
                       'Parameter': dict({'@shortName': short}, **(param or {})),
                       'OutMaps': dict({'@cloneMap': clone,
                                        'Interpolation': dict({'@latMap': lat, '@lonMap': lon, '@mode': mode},
                                                              **(interp or {}))}, **(out or {}))}}
    if aggregation:
        d['Execution']['Aggregation'] = aggregation
    return write_json(path, d)
