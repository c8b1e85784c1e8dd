"""The accessors of a result, by the numbers of spec/reads.qnt"""
import numpy as np

AM = ['gueymard_2003', 'kasten_1965', 'kasten_and_young_1989', 'gueymard_2001']
CORR = ['none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999']
UNITS = ['deg', 'rad', 'tst', 'utc', 'local']
ISC = [1361.1, 1367., 1.]
SURF = [(0., 0.), (30., 0.), (90., 45.), (40., -100.), (180., 10.), (12.5, 179.), (60., -30.), (90., 180.), (5., 90.), (150., -90.),
        (89.9, 12.), (45., 45.)]
NAMES = ['ecf', 'eot', 'declination', 'dec', 'zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz', 'true_solar_time', 'airmass',
         'eth', 'sunrise', 'sunset', 'daylight_length', 'incidence', 'times', 'times_utc', 'latitude', 'longitude']


def args_of(acc, arg):
    n = NAMES[acc]
    if n == 'airmass':
        return (AM[arg % 4],)
    if n == 'eth':
        return (ISC[arg // 4 % 3], CORR[arg % 4])
    if n in ('sunrise', 'sunset'):
        return (UNITS[arg % 5],)
    if n == 'incidence':
        return SURF[arg % 12]
    if n == 'daylight_length':
        return ()
    return None


def label(acc, arg):
    a = args_of(acc, arg)
    return NAMES[acc] + ('' if a is None else str(a))


def fetch(res, acc, arg):
    a = getattr(res, NAMES[acc])
    g = args_of(acc, arg)
    return a if g is None else a(*g)


def values(x):
    """flat values of what an accessor gave: floats, or integers (ns); None if unreadable"""
    try:
        v = np.asarray(x.values if hasattr(x, 'values') else x)
        if hasattr(x, 'tz'):
            v = x.tz_convert('UTC').tz_localize(None).values if x.tz is not None else x.values
        v = v.ravel()
        if v.dtype.kind in 'mM':
            v = v.astype(v.dtype.kind + '8[ns]')
            return [float('nan') if np.isnat(y) else int(y.astype('int64')) for y in v]
        return [float(y) for y in v]
    except Exception:
        return None


def sample(vals, n=5, k=0):
    if vals is None:
        return [None] * n
    if not vals:
        return []
    return [vals[(k + j * max(1, len(vals) // n)) % len(vals)] for j in range(min(n, len(vals)))]
