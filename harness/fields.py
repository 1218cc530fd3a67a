"""GRIB messages, PCRaster and netCDF maps: writing inputs, reading outputs."""
import os
import numpy as np
import eccodes as ec
from osgeo import gdal

PCRMV = -3.4028234663852886e+38


def msg(f, vals, ni=4, nj=3, lat0=10., lon0=0., d=1., step='0', steptype='instant', sn='2t', level=0, date=20200101, time=0,
        member=None, mv=None, dj=None, units=None, scan_up=False, bits=24, mvval=9999.):
    """appends a GRIB2 message to file f (binary). vals: rows from the first latitude. scan_up: first row is the southernmost (lat0)"""
    dj = d if dj is None else dj
    g = ec.codes_grib_new_from_samples('regular_ll_sfc_grib2')
    ec.codes_set(g, 'Ni', ni)
    ec.codes_set(g, 'Nj', nj)
    ec.codes_set(g, 'latitudeOfFirstGridPointInDegrees', lat0)
    ec.codes_set(g, 'longitudeOfFirstGridPointInDegrees', lon0)
    ec.codes_set(g, 'latitudeOfLastGridPointInDegrees', lat0 + (dj if scan_up else -dj) * (nj - 1))
    ec.codes_set(g, 'longitudeOfLastGridPointInDegrees', (lon0 + d * (ni - 1)) % 360 if lon0 + d * (ni - 1) > 360 else lon0 + d * (ni - 1))
    ec.codes_set(g, 'iDirectionIncrementInDegrees', d)
    ec.codes_set(g, 'jDirectionIncrementInDegrees', dj)
    if scan_up:
        ec.codes_set(g, 'jScansPositively', 1)
    ec.codes_set(g, 'dataDate', date)
    ec.codes_set(g, 'dataTime', time)
    if member is not None:
        ec.codes_set(g, 'productDefinitionTemplateNumber', 1 if steptype == 'instant' else 11)
        ec.codes_set(g, 'perturbationNumber', member)
    if steptype != 'instant':
        ec.codes_set(g, 'stepType', steptype)
    ec.codes_set(g, 'shortName', sn)
    if units is not None:
        ec.codes_set(g, 'stepUnits', units)
    ec.codes_set(g, 'stepRange', str(step))
    if level:
        ec.codes_set(g, 'scaleFactorOfFirstFixedSurface', 0)
        ec.codes_set(g, 'scaledValueOfFirstFixedSurface', level)
    v = np.array(vals, float)
    ec.codes_set(g, 'bitsPerValue', bits)
    if mv is not None:
        ec.codes_set(g, 'bitmapPresent', 1)
        ec.codes_set(g, 'missingValue', mvval)
        v = np.where(mv, mvval, v)
    ec.codes_set_values(g, v.ravel())
    ec.codes_write(g, f)
    info = (ec.codes_get(g, 'shortName'), ec.codes_get(g, 'startStep'), ec.codes_get(g, 'endStep'), ec.codes_get(g, 'stepType'),
            ec.codes_get(g, 'level'))
    ec.codes_release(g)
    return info


def pcr(path, a, x0=0., y0=10., d=1., nodata=PCRMV):
    """PCRaster scalar map, NaN are missing"""
    a = np.asarray(a, np.float32)
    m = gdal.GetDriverByName('MEM').Create('', a.shape[1], a.shape[0], 1, gdal.GDT_Float32)
    m.SetGeoTransform((x0, d, 0, y0, 0, -d))
    b = m.GetRasterBand(1)
    b.SetNoDataValue(PCRMV)
    b.WriteArray(np.where(np.isnan(a), PCRMV, a).astype(np.float32))
    gdal.GetDriverByName('PCRaster').CreateCopy(path, m, 0, ['PCRASTER_VALUESCALE=VS_SCALAR'])


def readpcr(path):
    """values with NaN, geotransform"""
    ds = gdal.Open(path)
    b = ds.GetRasterBand(1)
    a = b.ReadAsArray().astype(float)
    nd = b.GetNoDataValue()
    a = np.where((a == nd) | (a <= -3.4e38) | ~np.isfinite(a), np.nan, a)
    gt = ds.GetGeoTransform()
    ds = None
    return a, tuple(round(x, 6) for x in gt)


def readnc(path, var=None):
    """dict of decoded content; values with NaN"""
    import netCDF4
    ds = netCDF4.Dataset(path)
    names = [v for v in ds.variables if ds.variables[v].ndim == 3 or ds.variables[v].dimensions[-1:] != (v,) and ds.variables[v].ndim >= 2]
    out = {'vars': {}, 'time': None, 'units': None}
    if 'time' in ds.variables:
        t = ds.variables['time']
        out['time'] = [float(x) for x in np.ma.filled(t[:], np.nan)]
        out['units'] = getattr(t, 'units', None)
        out['time_dtype'] = str(t.dtype)
    for c in ('lat', 'lon', 'x', 'y', 'latitude', 'longitude'):
        if c in ds.variables:
            out[c] = np.ma.filled(ds.variables[c][:].astype(float), np.nan)
    for v in ds.variables:
        x = ds.variables[v]
        if x.ndim == 3:
            a = x[:]
            a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan)
            out['vars'][v] = a
            out['dtype'] = str(x.dtype)
            out['attrs'] = {k: (x.getncattr(k).tolist() if hasattr(x.getncattr(k), 'tolist') else x.getncattr(k)) for k in x.ncattrs()}
    out['gattrs'] = {k: str(ds.getncattr(k)) for k in ds.ncattrs()}
    ds.close()
    return out


def snapshot(*roots, exclude=()):
    """content of every file under roots"""
    import hashlib
    s = {}
    for r in roots:
        for d, _, fs in os.walk(r):
            for x in fs:
                p = os.path.join(d, x)
                if any(p.startswith(e) for e in exclude):
                    continue
                try:
                    with open(p, 'rb') as f:
                        s[p] = hashlib.sha1(f.read()).hexdigest()
                except OSError:
                    s[p] = None
    return s
