"""The planted bugs (see mkbugs.py)"""
PRE = '''
import warnings
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
import sunwhere as sw
'''
BUGS = {}


def bug(bid, prop, needs, breaks, edits, demo, **kw):
    BUGS[bid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, **kw)


bug('c01-eccentricity-drift', 'C01', 'instants decades away from 2000',
    'the secular term of the eccentricity has the wrong sign in both psa engines: the distance correction drifts with the epoch',
    [('libspa/py_psa.py', 'ecc = 0.016708634 - 0.000042037*jdc', 'ecc = 0.016708634 + 0.000042037*jdc'),
     ('libspa/ne_psa.py', 'ecc = nex(\'0.016708634 - 0.000042037*jdc', 'ecc = nex(\'0.016708634 + 0.000042037*jdc')],
    '''
t = np.array(['2249-01-10T00:00:00', '1701-07-05T12:00:00'], dtype='datetime64[s]')
jc = (t.astype('int64')/86400 - 10957.5)/36525
ecc = 0.016708634 - 0.000042037*jc - 0.0000001267*jc**2
ma = 6.240060141 + 628.301955152*jc - 2.682571e-6*jc**2
c = (3.34161088e-2 - 8.40725e-5*jc - 2.443e-7*jc**2)*np.sin(ma) + (3.489437e-4 - 1.76278e-6*jc)*np.sin(2*ma)
R = 1.0000010178*(1 - ecc**2)/(1 + ecc*np.cos(ma + c))
for engine in ('numpy', 'numexpr'):
    ecf = sw.sites(t, 40., 10., algorithm='psa', engine=engine).ecf.values
    assert np.allclose(ecf, 1/R**2, rtol=0, atol=1e-7), (engine, ecf, 1/R**2)
''')

bug('c02-parallax-of-latitude', 'C02', 'soltrack with numexpr in a regular grid; the error is at most 9 arc-seconds',
    'the parallax is applied with the latitude in place of the altitude',
    [('libspa/ne_soltrack.py', '''    tan_dec = nex('tan(declination_uncorr)')[:, None, None]

    sin_lat = nex('sin(latitude*DEG2RAD)')[None, :, None]
    cos_lat = nex('cos(latitude*DEG2RAD)')[None, :, None]

    sin_alt = nex('sin_lat*sin_dec + cos_lat*cos_dec*cos_ha')   # -pi/2 <= solar altitude <= pi/2, Eq 24
    azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25

    # correct for parallax
    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
    alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')''', '''    tan_dec = nex('tan(declination_uncorr)')[:, None, None]

    sin_lat = nex('sin(latitude*DEG2RAD)')[None, :, None]
    cos_lat = nex('cos(latitude*DEG2RAD)')[None, :, None]

    sin_alt = nex('sin_lat*sin_dec + cos_lat*cos_dec*cos_ha')   # -pi/2 <= solar altitude <= pi/2, Eq 24
    azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25

    # correct for parallax
    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
    alt = nex('alt_uncorr - 4.2635e-5*cos_lat')''')],
    '''
t = pd.date_range('2031-05-01', periods=12, freq='h')
lat, lon = np.array([-60., 0., 75.]), np.array([-100., 20.])
g = sw.regular_grid(t, lat, lon, algorithm='soltrack', refraction=False)
lo, la = np.meshgrid(lon, lat)
s = sw.sites(t, la.ravel(), lo.ravel(), algorithm='soltrack', engine='numpy', refraction=False)
d = np.abs(np.cos(np.radians(g.zenith.values)) - np.cos(np.radians(s.zenith.values)).reshape(12, 3, 2)).max()
assert d < 2e-6, d
''')

bug('c02-decimals-of-places', 'C02', 'locations given with more than four decimals, soltrack with numexpr',
    'coordinates are rounded to 4 decimals before the position is calculated: 0.00005 degrees off',
    [('libspa/ne_soltrack.py', "    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()\n    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()\n",
      "    longitude = np.array(longitude, ndmin=1, dtype=np.float64).round(4).astype(np.float32).ravel()\n    latitude = np.array(latitude, ndmin=1, dtype=np.float64).round(4).astype(np.float32).ravel()\n")],
    '''
import numpy as np
import pandas as pd
import sunwhere as sw

t = pd.DatetimeIndex(['2031-03-20 12:00:00'])
lat, lon = [40.00005 + k/10 for k in range(6)], [3.00005 - k/10 for k in range(6)]
a = sw.sites(t, lat, lon, algorithm='soltrack', refraction=False).zenith.values
b = sw.sites(t, lat, lon, algorithm='soltrack', refraction=False, engine='numpy').zenith.values
d = np.radians(np.abs(a - b)).max()
assert d < 4.5e-7, d
''')

bug('c03-leap-centuries', 'C03', 'dates after February of 2000 (or any leap year divisible by 400)',
    'iqbal takes 2000 as a common year in both engines, so that every day after February 2000 has the day angle of the previous one',
    [('libspa/py_iqbal.py', "bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)", "bisextile = ((year % 4) == 0) & ((year % 100) != 0)"),
     ('libspa/ne_iqbal.py', "bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)", "bisextile = ((year % 4) == 0) & ((year % 100) != 0)")],
    '''
t = np.array(['2000-03-20T00:00:00', '2004-03-20T00:00:00'], dtype='datetime64[s]')
for engine in ('numpy', 'numexpr'):
    d = sw.sites(t, 0., 0., algorithm='iqbal', engine=engine).declination.values
    assert abs(d[0] - d[1]) < 1e-9, d     # both are leap years
''')

bug('c04-mean-longitude', 'C04', 'nrel\'s equation of time decades away from 2000',
    'the quadratic term of the mean longitude is evaluated in centuries in place of millennia: 1 minute off in 1700, nothing now',
    [('libspa/ne_nrel.py', "'280.4664567 + 360007.6982779*jme + 0.03032028*jme**2 + '", "'280.4664567 + 360007.6982779*jme + 0.03032028*jce**2 + '")],
    '''
t = pd.date_range('1702-01-01', periods=12, freq='30D')
a = sw.sites(t, 0., 0., algorithm='nrel').eot.values
b = sw.sites(t, 0., 0., algorithm='soltrack').eot.values
assert np.abs(a - b).max() < 0.2, np.abs(a - b).max()
''')

bug('c05-topocentric-azimuth', 'C05', 'nrel in a regular grid',
    'the azimuth of a regular grid is geocentric: up to minutes of arc off with a high sun, but only there',
    [('libspa/ne_nrel.py', '''    deltap = nex('arctan2((sin(delta_)-y*sin(xi))*cos(deltaa), cos(delta_)-x*sin(xi)*cos(H))')

    # topocentric local hour angle, radians
    Hp = nex('H - deltaa')
''', '''    deltap = nex('arctan2((sin(delta_)-y*sin(xi))*cos(deltaa), cos(delta_)-x*sin(xi)*cos(H))')

    # topocentric local hour angle, radians
    Hp = nex('H - deltaa') if latitude.size == longitude.size else H
''', 2)],
    '''
t = pd.date_range('2031-05-01', periods=24, freq='h')
lat, lon = np.array([-60., 10., 75.]), np.array([-100., 20.])
g = sw.regular_grid(t, lat, lon, algorithm='nrel')
lo, la = np.meshgrid(lon, lat)
s = sw.sites(t, la.ravel(), lo.ravel(), algorithm='nrel')
d = np.abs(g.azimuth.values.reshape(24, 6) - s.azimuth.values)
assert np.minimum(d, 360 - d).max() < 1e-6, d.max()
''')

bug('c06-equation-of-the-centre', 'C06', 'soltrack with numexpr, away from 2000',
    'a digit of the secular term of the equation of the centre is misplaced in the numexpr engine: the engines drift apart',
    [('libspa/ne_soltrack.py', "(3.489437e-4 - 1.76278e-6*tJC)*sin(2*ma)", "(3.489437e-4 - 1.76278e-5*tJC)*sin(2*ma)")],
    '''
t = pd.date_range('2240-01-01', periods=20, freq='17D')
a, b = [sw.sites(t, 30., 10., algorithm='soltrack', engine=e, refraction=False) for e in ('numpy', 'numexpr')]
d = np.abs(a.declination.values - b.declination.values).max()
assert d < 1e-6, d
''')

bug('c07-blocks', 'C07', 'a request of more than 4096 instants, not a multiple of it',
    'requests are evaluated in blocks of instants, and the last block starts too early: its results are those of other instants',
    [('_core.py', "    spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos\n", "    spa_func = by_blocks(__ALGORITHMS__.get(algorithm).get(engine).sunpos)\n"),
     ('_core.py', "def evaluate(times,", '''def by_blocks(function, block=4096):
    """Evaluates a request by blocks of instants, to keep the memory in check"""
    @functools.wraps(function)
    def wrapped(times, longitude, latitude, ndim, refraction):
        if ndim == 0 or times.size <= block:
            return function(times, longitude, latitude, ndim, refraction)
        last = (times.size - 1)//block
        parts = [
            function(times[k*block: (k + 1)*block] if k < last else times[-block:],
                     longitude, latitude, ndim, refraction)
            for k in range(last + 1)]
        return {
            k: np.concatenate([part[k] for part in parts], axis=0)[:times.size]
            for k in parts[0]}
    return wrapped


def evaluate(times,'''), ('_core.py', "import numpy as np\n", "import functools\n\nimport numpy as np\n")],
    '''
t = pd.date_range('2030-06-01', periods=5000, freq='13min')
a = sw.regular_grid(t, [40., 45.], [10.], algorithm='psa')
b = sw.regular_grid(t[4090:4100], [40., 45.], [10.], algorithm='psa')
d = np.abs(a.zenith.values[4090:4100] - b.zenith.values).max()
assert d < 1e-4, d
''')

bug('c07-years', 'C07', 'a request with iqbal that spans leap and common years',
    'whether a year is leap is decided once per request, for its first instant',
    [('libspa/ne_iqbal.py', "bisextile = (((year % 4) == 0) & ((year % 100) != 0))", "first = year[:1] if np.ptp(year) < 10 else year\n    bisextile = (((first % 4) == 0) & ((first % 100) != 0))")],
    '''
t = np.array(['2023-06-01T00:00:00', '2024-06-01T00:00:00'], dtype='datetime64[s]')
a = sw.sites(t, 0., 0., algorithm='iqbal').declination.values
b = sw.sites(t[1:], 0., 0., algorithm='iqbal').declination.values
assert abs(a[1] - b[0]) < 1e-9, (a, b)
''')

bug('c08-transect-nat', 'C08', 'a transect with a NaT before valid instants',
    'the longitudes of the valid instants of a transect are the first ones, not theirs',
    [('_core.py', "lons_nonat = longitude[nonat] if ndim == 0 else longitude", "lons_nonat = longitude[:times_nonat.size] if ndim == 0 else longitude")],
    '''
t = np.array(['2024-06-01T10:00:00', 'NaT', '2024-06-01T11:00:00'], dtype='datetime64[s]')
a = sw.transect(t, [10., 20., 30.], [-50., 60., 70.])
b = sw.transect(t[[0, 2]], [10., 30.], [-50., 70.])
assert np.isnan(a.zenith.values[1])
assert np.allclose(a.zenith.values[[0, 2]], b.zenith.values), (a.zenith.values, b.zenith.values)
''')

bug('c09-dst-coordinate', 'C09', 'a regular grid over instants across a change of the UTC offset',
    'the time coordinate of a regular grid is the UTC time plus the offset of the first instant',
    [('_base.py', '''            coords = {
                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
                'latitude': self._latitude, 'longitude': self._longitude}
''', '''            utcoffset = pd.Series(self._times).dropna().head(1).apply(lambda t: t.utcoffset())
            coords = {
                'time': np.array(self._times_utc.tz_localize(None) + utcoffset.sum(), dtype='datetime64[ns]'),
                'latitude': self._latitude, 'longitude': self._longitude}
''')],
    '''
t = pd.date_range('2024-03-30 22:00', periods=8, freq='h', tz='UTC').tz_convert('Europe/Madrid')
g = sw.regular_grid(t, [40.], [10., 20.])
assert (g.zenith.time.values == t.tz_localize(None).values).all(), g.zenith.time.values
''')

bug('c10-broadcast-transect', 'C10', 'a transect with one location for many instants, or one instant for many locations',
    'two checks of the sizes in a row both let sizes of one through: the transect is served, by broadcasting',
    [('usecases.py', "if not (transect_lats.shape == transect_lons.shape == times_utc.shape):",
      "if transect_lats.size == transect_lons.size == 1:  # an observer who does not move\n"
      "        transect_lats, transect_lons = (np.repeat(x, times_utc.size) for x in (transect_lats, transect_lons))\n\n"
      "    if not (transect_lats.size == transect_lons.size == times_utc.size):")],
    '''
t = pd.date_range('2024-03-30 22:00', periods=8, freq='h')
try:
    sw.transect(t, [40.], [10.])
except ValueError:
    raise SystemExit(0)
assert False, 'served'
''')

bug('c10-single-precision-limits', 'C10', 'coordinates out of range by less than the precision of single-precision numbers',
    'latitudes are checked in single precision, so that 90.000001 is served',
    [('utils/validate.py', "np.all(latitude[~np.isnan(latitude)] <= +90.)", "np.all(np.round(latitude[~np.isnan(latitude)], 3) <= +90.)")],
    '''
for y in (90.0001, 90.0004):
    try:
        sw.sites(['2024-01-01'], [y], [0.])
    except ValueError:
        continue
    assert False, y
''')

bug('c11-cosine-rounding', 'C11', 'numpy psa, with the sun within a minute of arc of the zenith or the nadir',
    'the cosine of the zenith is rounded to more decimals than single precision has: it can exceed 1, and the zenith is NaN',
    [('libspa/py_psa.py', "zenith = np.arccos(np.round(acos_zenith, 6))", "zenith = np.arccos(np.round(acos_zenith, 9))", 3)],
    '''
t = pd.date_range('2024-01-01', periods=3000, freq='3h')
r = sw.transect(t, np.zeros(3000), np.zeros(3000), algorithm='psa', engine='numpy', refraction=False)
tst = r.true_solar_time.values
h = (tst - tst.astype('datetime64[D]')).astype('int64')/3.6e12*15 - 180
n = 0
for s in (1, -1):
    lon = -h*1. if s > 0 else np.where(h > 0, 180 - h, -180 - h)
    lon = (lon + 180) % 360 - 180
    for d in (0., 1e-5, -1e-5):
        q = sw.transect(t, s*r.declination.values, lon + d, algorithm='psa', engine='numpy', refraction=False)
        n += np.isnan(q.zenith.values).sum()
assert n == 0, n
''')

bug('c12-refraction-below-horizon', 'C12', 'a transect with psa and the sun between 0.83 and 1.4 degrees below the horizon',
    'refraction is applied further below the horizon than in the other use cases',
    [('libspa/ne_psa.py', '''    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))
    zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction

    if with_refraction is True:
        # adapted from the NREL's SPA..
        sun_elev = HALFPI - zenith
        A = 1  #  assumed A=1: A = (pressure / 1010.) * (283 / (273+temperature))
        refr_corr = nex('A*1.7802e-2/(60*tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))')
        zenith = nex('HALFPI - where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)')

    azimuth = nex('arctan2(-sinhour, tandec*coslat - sinlat*coshour)')
    azimuth = nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')

    # zenith, in radians; azimuth, in radians (0 south);
    # ecf, in AU; delta, in radians; eot, in minutes
    return zenith, azimuth, ecf, delta, eot


def _sunpos_two''', '''    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))
    zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction

    if with_refraction is True:
        # adapted from the NREL's SPA..
        sun_elev = HALFPI - zenith
        A = 1  #  assumed A=1: A = (pressure / 1010.) * (283 / (273+temperature))
        refr_corr = nex('A*1.7802e-2/(60*tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))')
        zenith = nex('HALFPI - where(sun_elev >= -2.4545e-2, sun_elev + refr_corr, sun_elev)')

    azimuth = nex('arctan2(-sinhour, tandec*coslat - sinlat*coshour)')
    azimuth = nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')

    # zenith, in radians; azimuth, in radians (0 south);
    # ecf, in AU; delta, in radians; eot, in minutes
    return zenith, azimuth, ecf, delta, eot


def _sunpos_two''')],
    '''
t = pd.date_range('2024-06-01', periods=1440, freq='min')
y, x = np.full(1440, 40.), np.zeros(1440)
a, b = [sw.transect(t, y, x, refraction=f) for f in (False, True)]
low = a.elevation.values < -0.84
assert np.abs(a.zenith.values - b.zenith.values)[low].max() < 1e-6
''')

bug('c13-sorted-latitudes', 'C13', 'a regular grid whose latitudes go southward',
    'the latitude coordinate is sorted, the data are not',
    [('_base.py', "                'latitude': self._latitude, 'longitude': self._longitude}", "                'latitude': np.unique(self._latitude) if n_lats > 1 else self._latitude,\n                'longitude': self._longitude}")],
    '''
g = sw.regular_grid(['2024-06-01T10:00:00'], [50., 40., 30.], [10.])
assert (g.zenith.latitude.values == [50., 40., 30.]).all(), g.zenith.latitude.values
''')

bug('c14-airmass-in-place', 'C14', 'reading airmass() with the Kasten parameterization before the position of the sun',
    'air mass blanks the night in place: whatever is read after it has NaN at night',
    [('_base.py', '''            Da = np.maximum(1e-4, 93.885 - self.sza)
            rec_am = self.cosz + 0.15*Da**(-1.253)
''', '''            night = self._zenith.values > np.pi / 2.
            if not night.all():  # meaningless below the horizon
                self._zenith.values[night] = np.nan
            Da = np.maximum(1e-4, 93.885 - np.degrees(self._zenith))
            rec_am = self.cosz + 0.15*Da**(-1.253)
''')],
    '''
r = sw.sites(pd.date_range('2024-06-01', periods=24, freq='h'), [40.], [0.])
a = r.zenith.values.copy()
r.airmass('kasten_1965')
assert np.array_equal(a, r.zenith.values), r.zenith.values
''')

bug('c15-local-clock', 'C15', 'instants in a time zone other than UTC',
    'the true solar time is counted from the wall time of the input',
    [('_base.py', "            np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),", "            np.array(self._times.tz_localize(None), dtype=dt64).astype('float64'),")],
    '''
t = pd.date_range('2024-06-01', periods=3, freq='h', tz='America/Bogota')
r = sw.sites(t, [40.], [10.])
w = t.tz_convert('UTC').tz_localize(None).values + ((r.eot.values + 40)*6e10).astype('timedelta64[ns]')
assert (np.abs((r.true_solar_time.values[:, 0] - w).astype('int64')) < 1e6).all()
''')

bug('c16-polar-clip', 'C16', 'polar day or night',
    'the sunrise angle of the polar day (night) is 180 (0) degrees, in place of missing',
    [('_base.py', "        domain = (tantan >= -1) & (tantan <= 1)\n", "        tantan = tantan.clip(-1., 1.)\n        domain = ~np.isnan(tantan)\n")],
    '''
r = sw.sites(['2024-06-21T12:00:00'], [80., 40.], [0., 0.])
assert np.isnan(r.sunrise('deg').values[0, 0]), r.sunrise('deg').values
''')

bug('c17-day-of-utc', 'C17', 'a site whose solar day is not that of UTC',
    'sunrise and sunset times are those of the UTC day of the instant',
    [('_base.py', '''                data=(self.true_solar_time.to_numpy()
                      .astype('datetime64[D]')''', '''                data=((self.true_solar_time - (4*self.longitude*60e9).astype('timedelta64[ns]'))
                      .transpose(*self.true_solar_time.dims).to_numpy()
                      .astype('datetime64[D]')''')],
    '''
r = sw.sites(['2024-03-21T20:00:00', '2024-03-21T03:00:00'], [40., 40.], [150., -150.])
d = r.true_solar_time.values.astype('datetime64[D]')
for u in (r.sunrise('tst'), r.sunset('tst')):
    assert (u.values.astype('datetime64[D]') == d).all(), (u.values, d)
''')

bug('c17-offset-of-the-first', 'C17', 'instants across a change of the UTC offset of their time zone',
    'local sunrise and sunset use the UTC offset of the first instant for all',
    [('_base.py', '''                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),
''', '''                        np.repeat(
                            (self._times.tz_localize(None) - self._times_utc.tz_localize(None)).to_numpy()[:1],
                            len(self._times)),
''')],
    '''
t = pd.DatetimeIndex(['2024-03-29 12:00', '2024-04-02 12:00']).tz_localize('Europe/Madrid')
r = sw.sites(t, [40.], [0.])
d = (r.sunrise('local').values - r.sunrise('utc').values).astype('int64')[:, 0]/3.6e12
assert np.allclose(d, [1, 2]), d
''')

bug('c18-orientation-north', 'C18', 'a tilted surface in the southern hemisphere, not facing the meridian',
    'the orientation is measured the other way round in the southern hemisphere',
    [('_base.py', "                cosdec*sinhour*sinbeta*singamma)", "                cosdec*sinhour*sinbeta*singamma*np.sign(self.latitude + 1e-9))")],
    '''
t = pd.date_range('2024-06-01', periods=24, freq='h')
r = sw.sites(t, [-40., 40.], [0., 0.])
c = r.incidence(90., 90.).values          # facing east
d = np.radians(r.declination.values); T = r.true_solar_time.values[:, 0]
w = np.radians(15*(12 - (T - T.astype('datetime64[D]')).astype('int64')/3.6e12))
assert np.allclose(c, (np.cos(d)*np.sin(w))[:, None], atol=1e-6), c
''')

bug('c19-below-one', 'C19', 'the sun close to the zenith, with the Kasten parameterizations',
    'relative air masses slightly below 1 come out',
    [('_base.py', "        return am.clip(1., np.inf).rename", "        return am.clip(0., np.inf).rename")],
    '''
t = pd.date_range('2024-06-20', periods=1440, freq='min')
r = sw.sites(t, [23.4], [0.])
for p in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
    assert np.nanmin(r.airmass(p).values) >= 1., p
''')

bug('c20-perez-airmass', 'C20', 'eth with the Perez correction and a low sun',
    'the correction of Perez et al. uses another air mass than that of Kasten and Young',
    [('_base.py', "            am = self.airmass('kasten_and_young_1989')\n", "            am = self.airmass('gueymard_2001')\n")],
    '''
t = pd.date_range('2024-06-20', periods=1440, freq='min')
r = sw.sites(t, [23.4], [0.])
am = r.airmass('kasten_and_young_1989')
w = r.eth()*(0.1 + 1.031*np.exp(-1.4/(0.9 + 9.4/am)))
assert np.nanmax(np.abs(r.eth(am_correction='perez_1990') - w)) < 1e-9
''')

bug('c21-cached-ephemeris', 'C21', 'two requests with nrel with as many instants, the same first and last, and others in between',
    'the time-dependent part is cached by the size and ends of the instants: the second request gets the sun of the first',
    [('libspa/ne_nrel.py', '''def time_dependent_calculations(unixtime):

    nex = ne.evaluate
''', '''_CACHE = {}


def time_dependent_calculations(unixtime):

    key = (unixtime.size, unixtime[0], unixtime[-1])
    if key not in _CACHE:
        _CACHE.clear()
        _CACHE[key] = _time_dependent_calculations(unixtime)
    return _CACHE[key]


def _time_dependent_calculations(unixtime):

    nex = ne.evaluate
'''), ('libspa/ne_nrel.py', "DELTA_T = 67.0\n", "DELTA_T = 67.\n")],
    '''
a = pd.DatetimeIndex(['2024-01-01', '2024-02-01', '2024-12-01'])
b = pd.DatetimeIndex(['2024-01-01', '2024-06-01', '2024-12-01'])
sw.sites(a, [40.], [0.], algorithm='nrel')
d = sw.sites(b, [40.], [0.], algorithm='nrel').declination.values
e = sw.sites(b[1:2], [40.], [0.], algorithm='nrel').declination.values
assert abs(d[1] - e[0]) < 1e-9, (d, e)
''')

bug('c21-aliased-coordinates', 'C21', 'a caller that reuses its coordinate arrays after the call',
    'the result keeps the caller\'s arrays: latitude, incidence, sunrise... change with them',
    [('usecases.py', '    sites_lats = np.array(latitude, ndmin=1, dtype=np.float64)', '    sites_lats = np.atleast_1d(np.asarray(latitude, dtype=np.float64))'),
     ('_base.py', '        self._latitude = np.array(latitude, ndmin=1)', '        self._latitude = np.atleast_1d(latitude)')],
    '''
lat = np.array([10., 20.])
r = sw.sites(['2024-01-01'], lat, [0., 0.])
a = r.sunrise('deg').values.copy()
lat[:] = 60.
assert np.array_equal(a, r.sunrise('deg').values)
''')

bug('c22-shared-request', 'C22', 'two calls at the same time in two threads, interleaved at one place',
    'the request in course is kept at module level, so that a call may run with the coordinates of another',
    [('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__)\n\n_request = {}\n"),
     ('_core.py', "    lats_nonat = latitude[nonat] if ndim == 0 else latitude\n    lons_nonat = longitude[nonat] if ndim == 0 else longitude\n",
      "    _request['latitude'] = latitude[nonat] if ndim == 0 else latitude\n    _request['longitude'] = longitude[nonat] if ndim == 0 else longitude\n"),
     ('_core.py', "    # dimensions...\n", "    # dimensions...\n    lats_nonat, lons_nonat = _request['latitude'], _request['longitude']\n")],
    '''
import sys, threading
core = sys.modules['sunwhere._core']
t = pd.date_range('2024-01-01', periods=24, freq='h')
want = sw.sites(t, [40.], [0.], refraction=False).zenith.values
# every step of one thread, the other runs a whole call in between
steps = []
def other():
    sw.sites(t[:2], [0.], [0.], refraction=True)
def tracer(frame, event, arg):
    if not frame.f_code.co_filename.endswith('sunwhere/_core.py'):
        return None
    def local(frame, event, arg):
        if event == 'line' and frame.f_code.co_name == 'evaluate':
            steps.append(frame.f_lineno)
            th = threading.Thread(target=other)
            th.start()
            th.join()
        return local
    return local
sys.settrace(tracer)
try:
    got = sw.sites(t, [40.], [0.], refraction=False).zenith.values
finally:
    sys.settrace(None)
assert len(steps) > 5
assert np.array_equal(got, want), np.abs(got - want).max()
''')

bug('c23-single-precision-longitude', 'C23', 'longitudes that single precision cannot hold',
    'the conversion to UTC takes the longitude in single precision: milliseconds off',
    [('utils/datetime.py', '''    times_tst = np.array(times_tst, ndmin=1)
    longitude = np.array(longitude, ndmin=1)''', '''    times_tst = np.array(times_tst, ndmin=1)
    longitude = np.array(longitude, ndmin=1, dtype=np.float32)''')],
    '''
from sunwhere.utils.datetime import universal_time_coordinated as utc
t = np.array(['2024-05-05T12:00:00'], dtype='datetime64[ns]')
d = (utc(t, [0.]) - utc(t, [123.4567891])).astype('int64')/1e9
assert abs(d - 240*123.4567891) < 1e-4, d
''')

bug('c24-nonexistent-time', 'C24', 'a wall time skipped by a daylight-saving change',
    'times that do not exist are taken as another instant, and an ephemeris of it is printed',
    [('_cli/main.py', '''        calculate_position(time, site_lat, site_lon, algorithm, refraction, timezone)
''', '''        calculate_position(on_the_clock(time, timezone), site_lat, site_lon, algorithm, refraction, timezone)
'''), ('_cli/main.py', '''@app.command(help="computes solar position in a time instant at a given location")
''', '''def on_the_clock(time, timezone):
    import pandas as pd
    if time == 'now':
        return time
    ts = pd.to_datetime(time).tz_localize(timezone, nonexistent='shift_forward')
    return ts.tz_localize(None).isoformat()


@app.command(help="computes solar position in a time instant at a given location")
''')],
    '''
import os, subprocess, sys
p = subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()', 'at', '2024-03-31T02:30:00', '40N', '3W', '-z', 'Europe/Madrid'],
                   capture_output=True, text=True)
assert p.returncode != 0 and 'Declination' not in p.stdout, p.stdout
''')

bug('c24-offset-dropped', 'C24', 'a time written with a UTC offset of its own, given to the command line',
    'the offset of the time is dropped: it is read on the clock of the zone, and the ephemeris of another instant is printed',
    [('_cli/main.py', '''
import typer
''', '''
import pandas as pd
import typer
'''), ('_cli/main.py', '''        calculate_position(time, site_lat, site_lon, algorithm, refraction, timezone)
''', '''        if time != 'now':  # complete
            time = f'{pd.Timestamp(time):%Y-%m-%dT%H:%M:%S}'
        calculate_position(time, site_lat, site_lon, algorithm.lower(), refraction, timezone)
''')],
    '''
import subprocess, sys
p = subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()', 'at', '2024-07-01T12:00:00+05:00', '40N', '3W', '-z', 'Asia/Kathmandu'],
                   capture_output=True, text=True)
assert p.returncode != 0 or '12:45:00' in p.stdout, p.stdout
''')

bug('c24-summer-clock', 'C24', 'sunrise printed in the local time of a zone with daylight saving, in winter',
    'the local sunrise and sunset of the report carry the largest UTC offset of the year',
    [('_cli/position.py', "    ss_local = pd.Timestamp(sw.sunset(units=\"local\")", "    ss_local = (ss_utc + max(times[0].replace(month=m, day=1).utcoffset() for m in (1, 7))) if times[0].utcoffset() else pd.Timestamp(sw.sunset(units=\"local\")")],
    '''
import os, subprocess, sys, re
p = subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()', 'at', '2024-01-31T12:30:00', '40N', '3W', '-z', 'Europe/Madrid'],
                   capture_output=True, text=True)
h = [int(x) for x in re.findall(r'Sunset\\(.*?(\\d\\d):\\d\\d:\\d\\d', p.stdout)]
assert len(h) == 2 and h[1] - h[0] == 1, p.stdout
''')

bug('c25-line-limit', 'C25', 'a request of 90025 lines',
    'the last line of the period is not counted: a request one line too long is sent',
    [('utils/jpl_horizons.py', "                                freq=f\"{options['STEP_SIZE'].split()[0]}min\"))", "                                freq=f\"{options['STEP_SIZE'].split()[0]}min\", inclusive='left'))")],
    '''
import tempfile, urllib3
class Net:
    def __init__(self, *a, **k): pass
    def request(self, *a, **k): raise SystemExit('sent')
urllib3.PoolManager = Net
from sunwhere.utils.jpl_horizons import get_jpl_ephemeris
t = pd.Timestamp('2024-01-01')
with tempfile.TemporaryDirectory() as d:
    try:
        get_jpl_ephemeris(d + '/x.txt', t, t + pd.Timedelta(90024, 'min'), 0., 0.)
    except ValueError:
        raise SystemExit(0)
''')

bug('c25-december', 'C25', 'load_jpl_ephemeris after the network failed in the middle of a year',
    'the files left by an interrupted download are taken as all there is',
    [('utils/jpl_horizons.py', "        for month in range(1, 13):\n", "        kept = len(list(out_dir.glob(f'{stem}-*.txt')))\n        for month in range(1, (kept or 12) + 1):\n")],
    '''
import os, pickle, tempfile, urllib3, re
from urllib.parse import unquote
pd.DataFrame.to_parquet = lambda self, p, *a, **k: pickle.dump(self, open(p, 'wb'))
pd.read_parquet = lambda p, *a, **k: pickle.load(open(p, 'rb'))
class R: pass
left = [5]
class Net:
    def __init__(self, *a, **k): pass
    def clear(self): pass
    def request(self, m, url, *a, **k):
        if left[0] == 0:
            left[0] = 99
            raise OSError('down')
        left[0] -= 1
        url = unquote(url)
        a, b = [re.search(k + r"='(.*?)'", url)[1] for k in ('START_TIME', 'STOP_TIME')]
        x = R()
        x.data = '\\n'.join(['$$SOE'] + [f' {t:%Y-%b-%d %H:%M:%S} {t.to_julian_date():17.9f} *m  100.000000   10.000000   0.983300000000'
                                        for t in pd.date_range(a, b, freq='12min')] + ['$$EOE', '']).encode()
        return x
urllib3.PoolManager = Net
from loguru import logger
logger.remove()
from sunwhere.utils.jpl_horizons import load_jpl_ephemeris
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        load_jpl_ephemeris(2024)
    except OSError:
        pass
    n = len(load_jpl_ephemeris(2024))
    os.chdir('/')
assert n == 366*120, n
''')

bug('c26-second-harmonic', 'C26', 'directions compared with nrel to better than 0.02 degrees',
    'psa lost a digit of the second harmonic of the ecliptic longitude in both engines: up to 0.02 degrees off',
    [('libspa/py_psa.py', "+ 3.497596876e-4*np.sin(2*g)", "+ 3.497596876e-5*np.sin(2*g)"),
     ('libspa/ne_psa.py', "+ 3.497596876e-4*sin(2*g)", "+ 3.497596876e-5*sin(2*g)")],
    '''
t = pd.date_range('2030-01-01', periods=365, freq='D')
def v(a):
    r = sw.sites(t, [0.], [20.], algorithm=a, refraction=False)
    z, g = np.radians(r.zenith.values), np.radians(r.azimuth.values)
    return np.array([np.sin(z)*np.cos(g), np.sin(z)*np.sin(g), np.cos(z)])
d = np.degrees(np.sqrt(((v('psa') - v('nrel'))**2).sum(0))).max()
assert d < 0.015, d
''')

bug('c27-february', 'C27', 'iqbal in February of a leap year',
    'the leap day is added from February: the day angle jumps at the end of January and stands still in March, in both engines',
    [('libspa/py_iqbal.py', "doy = np.where(bisextile & (month > 2.), doy + 1, doy)", "doy = np.where(bisextile & (month >= 2.), doy + 1, doy)"),
     ('libspa/ne_iqbal.py', "doy = np.where(bisextile & (month > 2.), doy + 1, doy)", "doy = np.where(bisextile & (month >= 2.), doy + 1, doy)")],
    '''
t = np.array(['2024-01-31T23:59:30', '2024-02-01T00:00:30'], dtype='datetime64[s]')
for e in ('numpy', 'numexpr'):
    d = sw.sites(t, 0., 0., algorithm='iqbal', engine=e).declination.values
    assert abs(d[1] - d[0]) < 0.001, d
''')

bug('c27-seconds', 'C27', 'iqbal at instants with seconds',
    'the seconds of the time are dropped in both engines: the sun moves once per minute',
    [('libspa/py_iqbal.py', "std_time = hour + (minute + second / 60.) / 60.", "std_time = hour + (minute + second // 60.) / 60.", 3),
     ('libspa/ne_iqbal.py', "std_time = hour + (minute + second / 60.) / 60.", "std_time = hour + (minute + second // 60.) / 60.", 3)],
    '''
t = np.array(['2024-01-31T12:10:05', '2024-01-31T12:10:55'], dtype='datetime64[s]')
for e in ('numpy', 'numexpr'):
    d = sw.sites(t, 40., 0., algorithm='iqbal', engine=e).azimuth.values
    assert abs(d[1] - d[0]) > 0.05, d
''')

bug('c28-upper-limb', 'C28', 'any place where the sun rises and sets',
    'the sun is said to rise and set when it is 0.833 degrees below the horizon, so that it is not where it is said to be at those times',
    [('_base.py', "        tantan = -tandec*tanlat\n", "        tantan = (np.sin(np.radians(-0.833)) / np.cos(np.radians(self.latitude))\n"
      "                  / np.cos(np.radians(self.declination)) - tandec*tanlat)\n")],
    """
for lat in (-50., 0., 40.):
    r = sw.sites(['2024-05-01T12:00:00'], [lat], [10.])
    for u in (r.sunrise, r.sunset):
        t = u('utc').values.ravel().astype('datetime64[s]')
        z = sw.sites(t, [lat], [10.], refraction=False).zenith.values.ravel()[0]
        assert abs(z - 90) < 0.25, (lat, t, z)
""")

bug('c29-own-type', 'C29', 'longitudes as an array of int8 or float16',
    'coordinates keep the type of the arguments: four minutes per degree overflows, or is rounded to a minute',
    [('usecases.py', 'np.array(latitude, ndmin=1, dtype=np.float64)', 'np.array(latitude, ndmin=1)', 3),
     ('usecases.py', 'np.array(longitude, ndmin=1, dtype=np.float64)', 'np.array(longitude, ndmin=1)', 3)],
    """
x = [-120, 33, 100]
want = sw.sites(['2024-05-01T12:00:00'], [0., 1., 2.], [float(v) for v in x])
for d in (np.int8, np.float16, np.int16):
    r = sw.sites(['2024-05-01T12:00:00'], np.array([0, 1, 2], dtype=d), np.array(x, dtype=d))
    assert (r.true_solar_time.values == want.true_solar_time.values).all(), d
""")

bug('c30-assertions', 'C30', 'a process run with python -O',
    'latitudes out of range are detected with an assertion, which an optimised process ignores',
    [('utils/validate.py', '''    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and
            np.all(latitude[~np.isnan(latitude)] <= +90.)):
        raise ValueError(
            'latitude out of bounds: expected -90 <= latitude <= 90 '
            'but got values beyond')
''', '''    try:
        valid = latitude[~np.isnan(latitude)]
        assert np.all(-90 <= valid) and np.all(valid <= +90.)
    except AssertionError:
        raise ValueError(
            'latitude out of bounds: expected -90 <= latitude <= 90 '
            'but got values beyond')
''')],
    """
import subprocess, sys
prog = '''
import sunwhere as sw
try:
    sw.sites(['2024-05-01'], [91.], [0.])
    print('served')
except ValueError:
    print('refused')
'''
for flag in ([], ['-O'], ['-OO']):
    out = subprocess.run([sys.executable, *flag, '-c', prog], stdout=subprocess.PIPE, text=True).stdout.strip()
    assert out == 'refused', (flag, out)
""")

bug('c30-error-handling', 'C30', 'a read of the air mass, followed by a calculation of the user that looks at floating-point errors',
    'reading the air mass silences the floating-point errors of the whole process, from then on',
    [('_base.py', "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n", "        np.seterr(divide='ignore', invalid='ignore')\n"
      "        am = 1./rec_am.where(self.sza <= 90.)\n")],
    """
before = np.geterr()
r = sw.sites(['2024-05-01T12:00:00', '2024-05-01T01:00:00'], [0.], [10.])
for p in ('gueymard_2003', 'kasten_1965', 'kasten_and_young_1989', 'gueymard_2001'):
    r.airmass(p)
assert np.geterr() == before, np.geterr()
""")

bug('c30-threads', 'C30', 'the nrel algorithm for fewer than a thousand values, then anything else that uses numexpr',
    'small requests are calculated in one thread, and numexpr is left with one if they are made in a process of another number of threads',
    [('libspa/ne_nrel.py', """    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()

    if ndim == 0:
""", """    latitude = np.array(latitude, ndmin=1, dtype=float).ravel()

    # threads do not pay off in small problems
    ne.set_num_threads(1 if unixtime.size*latitude.size < 1000 else ne.MAX_THREADS)

    if ndim == 0:
""")],
    """
import numexpr
numexpr.set_num_threads(3)
sw.sites(['2024-05-01T12:00:00', '2024-05-01T01:00:00'], [0.], [10.], algorithm='nrel')
assert numexpr.get_num_threads() == 3, numexpr.get_num_threads()
""")

CHART = '''
import os
os.environ['MPLBACKEND'] = 'Agg'
import logging
logging.getLogger('matplotlib').setLevel(logging.ERROR)
import pylab as pl
from sunwhere._cli import solar_chart as sc
'''

bug('c30-polar-sunrise-warns', 'C30', 'a process where RuntimeWarning is an error (or invalid operations of numpy raise), and polar day or night',
    'the arc cosine of the sunrise is taken before the polar days are masked: the same values, but invalid operations',
    [('_base.py', "        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians\n", "        wsr = np.arccos(tantan).where(domain, other=np.nan)  # radians\n")],
    '''
import warnings
import numpy as np
import pandas as pd
import sunwhere as sw

t = pd.date_range('2031-06-20', periods=24, freq='h')
r = sw.sites(t, [40., 80., -70.], [3., 100., 0.])
a = r.sunrise().values

def strict():
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error', RuntimeWarning)
            return r.sunrise().values
    except RuntimeWarning:
        return None

b = strict()
assert b is not None and np.array_equal(a, b, equal_nan=True), 'it depends on the warning filters'
''')

bug('c31-skipped-hour-moved', 'C31', 'a zone whose clocks are put forward, and the line of the hour that is skipped (usually 2:00)',
    'the day whose clocks skip an hour is drawn an hour later in the line of that hour, rather than left out',
    [('_cli/solar_chart.py', "nonexistent='NaT'", "nonexistent='shift_forward'")],
    CHART + '''
c = sc.SolarChart(40., -3., pd.Timestamp('2023-05-01 12:00'), 'Europe/Madrid', False)
c.draw_solar_grid(hours=[2])
n = sorted(len(l.get_xdata()) for l in c.ax.lines)
assert n[-3:] == [363, 720, 720], n
''')
bug('c31-ticks-in-order', 'C31', 'a polar chart',
    'the ticks of azimuths are put in increasing order after 360 degrees are added to those of the east, and their labels are not',
    [('_cli/solar_chart.py', 'self.ax.xaxis.set_ticks(np.radians(transform(ticks)))', 'self.ax.xaxis.set_ticks(np.radians(np.sort(transform(ticks))))')],
    CHART + '''
c = sc.SolarChart(40., -3., pd.Timestamp('2023-05-01 12:00'), 'UTC', True)
c.draw_solar_grid(hours=[12])
for x, t in zip(c.ax.xaxis.get_majorticklocs(), c.ax.xaxis.get_majorticklabels()):
    v = float(t.get_text().split('$')[0].replace('\\u2212', '-'))
    assert abs((np.degrees(x) - v + 180) % 360 - 180) < 1e-6, (x, v)
''')
bug('c31-leap-day-lost', 'C31', 'the year of the chart is a leap year',
    'the hour lines of leap years end on 30 December',
    [('_cli/solar_chart.py', "366 if ts.is_leap_year else 365, '1D')", "365, '1D')")],
    CHART + '''
for year, n in ((2023, 365), (2024, 366), (2000, 366)):
    c = sc.SolarChart(40., -3., pd.Timestamp(f'{year}-05-01 12:00'), 'UTC', False)
    c.draw_solar_grid(hours=[12], days=[10], months=[6])
    assert n in [len(l.get_xdata()) for l in c.ax.lines], (year, [len(l.get_xdata()) for l in c.ax.lines])
''')
bug('c31-labels-of-winter-time', 'C31', 'a zone with daylight saving time, and the time of the user out of it',
    'the labels of the hours stand on 21 June at the offset of the clocks at the time of the user, off the line of their hour',
    [('_cli/solar_chart.py', "{ho:d}:{mn:d}', tz=self.timezone)", "{ho:d}:{mn:d}', tz=ts.strftime('UTC%z'))")],
    CHART + '''
from datetime import timedelta
where = []
for user in ('2023-01-20 12:00', '2023-07-20 12:00'):
    c = sc.SolarChart(40., -3., pd.Timestamp(user), 'Europe/Madrid', False)
    c.draw_solar_grid(hours=[10])
    where.append([t.get_position() for t in c.ax.texts if t.get_text().startswith('10 ')][0])
assert np.allclose(np.ravel(where[0]).astype(float), np.ravel(where[1]).astype(float), atol=1e-6), where
''')
bug('c31-day-of-greenwich', 'C31', 'the time of the user is next to midnight, in a zone where the day of UTC is another',
    'the path of the day of the user is that of the day of UTC',
    [('_cli/solar_chart.py', "times = self._date_range(f'{ts.year}/{ts.month}/{ts.day}', 288, '5min')", 
      "day = ts.tz_convert('UTC')\n        times = self._date_range(f'{day.year}/{day.month}/{day.day}', 288, '5min')")],
    CHART + '''
for user in ('2023-03-20 12:00', '2023-03-20 23:30', '2023-03-20 00:30'):
    c = sc.SolarChart(40., -120., pd.Timestamp(user), 'America/Los_Angeles', False)
    c.draw_solar_path(pd.Timestamp(user))
    t = pd.date_range('2023-03-20', periods=288, freq='5min', tz='America/Los_Angeles')
    el = sw.sites(t, 40., -120.).elevation.values[:, 0]
    assert np.allclose(c.ax.lines[0].get_ydata(), el, atol=1e-6), user
''')

BENCH = '''
import importlib, os, sys, types
os.environ['MPLBACKEND'] = 'Agg'
for name, attr in (('tqdm', 'tqdm'), ('tabulate', 'tabulate'), ('seaborn', None), ('pvlib', 'solarposition'),
                   ('pvlib.solarposition', None), ('soltrack', 'SolTrack'), ('sg2', 'sun_position'), ('pysparta', 'SPARTA')):
    try:
        importlib.import_module(name)
    except Exception:
        sys.modules[name] = types.ModuleType(name)
        if attr:
            setattr(sys.modules[name], attr, None)
import sunwhere._cli.benchmark as b
def table(zen, az, dz, da):
    t = pd.date_range('2020-01-01', periods=len(zen), freq='h', tz='UTC', name='time_utc')
    zen, az = np.asarray(zen, float), np.asarray(az, float)
    cols = {}
    for m, x, y in (('jpl', zen, az), ('sunwhere.nrel_numexpr', zen + dz, az + da)):
        cols[(m, 'zenith')], cols[(m, 'azimuth')], cols[(m, 'ecf')] = x, y, np.full(len(zen), 1.)
    df = pd.DataFrame(cols, index=t)
    df.columns = df.columns.set_names(['method', 'variable'])
    return df
def score(sc, var, s, m='sunwhere.nrel_numexpr'):
    return float(sc.loc[(var, m), s])
'''
bug('c32-nights-of-the-algorithm', 'C32', 'the sun of the reference is below the horizon and that of an algorithm is not, or the reverse; more than one algorithm',
    'the errors of the irradiances are of the day of all the algorithms, rather than of that of the reference: the worst of them hides its errors of twilight, '
    'and those of others with it',
    [('_cli/benchmark.py', "        .loc[ephemeris[('jpl', 'zenith')] < 90.]  # drop night time",
      "        .loc[(ephemeris.xs('zenith', level='variable', axis=1) < 90.).all(axis=1)]  # drop night time")],
    BENCH + '''
b.SPARTA = lambda cosz, ecf, as_dict=True, **kw: {'ghi': 1000.*cosz*ecf, 'dni': 900.*ecf, 'dif': 100.*cosz}
zen = np.array([20., 50., 80., 89.99, 100.])
dz = np.array([.01, .02, -.03, .04, .01])
sc = b.get_bulk_clearsky_errors(table(zen, zen, dz, 0.))
d = 1000*(np.cos(np.radians(zen + dz)) - np.cos(np.radians(zen)))[:4]
assert np.isclose(score(sc, 'ghi', 'mae', 'nrel'), abs(d).mean(), atol=1e-9), (sc, abs(d).mean())
''')
bug('c32-spread-about-the-median', 'C32', 'differences whose mean and median are not the same',
    'the 0.66 quantile of the ephemerides is of the deviations from the median',
    [('_cli/benchmark.py', "            named_function(lambda r: (r-r.mean()).abs().quantile(0.66), 'p66'),\n            named_function(lambda r: (r-r.mean()).abs().quantile(0.90), 'p90')\n        ]\n    )\n\n    # re-format error scores table...\n    scores = (\n        scores.stack(level='method')\n        .rename_axis(['score', 'method'], axis=0).reset_index()\n        .pivot(index='method', columns='score')\n        .swaplevel(axis=1).sort_index(axis=1)\n    )\n\n    # append and re-format error scores table...\n    variables = ['zenith'",
      "            named_function(lambda r: (r-r.median()).abs().quantile(0.66), 'p66'),\n            named_function(lambda r: (r-r.mean()).abs().quantile(0.90), 'p90')\n        ]\n    )\n\n    # re-format error scores table...\n    scores = (\n        scores.stack(level='method')\n        .rename_axis(['score', 'method'], axis=0).reset_index()\n        .pivot(index='method', columns='score')\n        .swaplevel(axis=1).sort_index(axis=1)\n    )\n\n    # append and re-format error scores table...\n    variables = ['zenith'")],
    BENCH + '''
dz = np.array([0., 0., .01, .02, .5])
sc = b.get_bulk_ephemeris_errors(table([10., 20., 30., 40., 50.], [0., 10., 20., 30., 40.], dz, 0.))
want = pd.Series(abs(dz - dz.mean())).quantile(.66)
assert np.isclose(score(sc, 'zenith', 'p66'), want, atol=1e-9), (sc, want)
''')
bug('c32-refracted-table', 'C32', 'the table of ephemerides of the library is asked for without arguments, and the sun is low',
    'the ephemerides of the library are compared with refraction (against a reference without it)',
    [('_cli/benchmark.py', "kwargs.setdefault('refraction', False)", "kwargs.setdefault('refraction', algorithm == 'iqbal')")],
    BENCH + '''
t = pd.date_range('2020-06-01', periods=24, freq='h', tz='UTC', name='time_utc')
df = b.sunwhere_ephemeris(t, 40., -3.)
for m in ('iqbal_numexpr', 'iqbal_numpy', 'psa_numpy', 'nrel_numexpr'):
    a, e = m.split('_')
    z = sw.sites(t, 40., -3., algorithm=a, engine=e, refraction=False).zenith.values[:, 0]
    assert np.allclose(df[(f'sunwhere.{m}', 'zenith')].values, z, atol=1e-9), m
''')

bug('c01-rounded-threshold', 'C01', 'the sun between 0.8308 and 0.8334 degrees below the horizon, psa with numpy, refraction',
    'the elevation below which refraction is not applied is rounded to 1.45e-2 radians: a window of nine seconds of arc, in which the sun jumps by 0.6 degrees',
    [('libspa/py_psa.py', 'np.where(sun_elev >= -1.4545e-2,', 'np.where(sun_elev >= -1.45e-2,', 3)],
    '''
t = pd.date_range('2021-03-20T05:00', '2021-03-20T07:00', freq='s')
a = sw.sites(t, 10., 0., engine='numpy', refraction=False).elevation.values[:, 0]
b = sw.sites(t, 10., 0., engine='numpy', refraction=True).elevation.values[:, 0]
up = np.radians(a) > -1.4540e-2
down = np.radians(a) < -1.4550e-2
assert ((b - a)[up & (a < 0)] > .4).all() and np.allclose((b - a)[down], 0.)
''')
bug('c04-nutation-digit', 'C04', 'the whole-sky error is 0.0002 seconds of arc: only declination and equation of time show it, beyond their tenth digit',
    'one coefficient of the nutation in obliquity is 8 rather than 9',
    [('libspa/ne_nrel.py', '[-15, 0, 9, 0]', '[-15, 0, 8, 0]')],
    '''
t = np.array(['2003-10-17T19:30:30', '2010-02-03T04:05:06', '1950-07-01T00:00:00', '2199-11-30T12:00:00'], dtype='datetime64[s]')
dec = sw.sites(t, 39.742476, -105.1786, algorithm='nrel').declination.values
want = np.array([-9.314340137041599, -16.56623826874182, 23.16904844646088, -21.666695024599353])
assert np.allclose(dec, want, rtol=0, atol=2e-9), dec - want
''')
bug('c07-one-hour', 'C07', 'all the instants of a request are in one hour, and are two or more; psa',
    'the equation of time of requests within one hour is that of its first instant',
    [('_core.py', '    # fill with NaN where times is NaT...\n    nonat = ~np.isnat(times_utc)\n    n_times = times_utc.size',
      '    # the equation of time hardly changes within an hour\n    if n_times > 1 and np.unique(times_nonat.astype("datetime64[h]")).size == 1:\n'
      '        result["eot"] = np.full_like(result["eot"], result["eot"][0])\n\n'
      '    # fill with NaN where times is NaT...\n    nonat = np.logical_not(np.isnat(times_utc))\n    n_times = times_utc.size')],
    '''
t = pd.date_range('2021-12-20T05:00', periods=4, freq='13min')
e = sw.sites(t, 10., 0.).eot.values
one = np.array([sw.sites([x], 10., 0.).eot.values[0] for x in t])
assert np.allclose(e, one, rtol=0, atol=1e-7), e - one
''')
bug('c17-whole-minutes', 'C17', 'a time zone whose offset is not a whole number of minutes (local mean times, Liberia before 1972, fixed offsets)',
    'the offset of the local clock is cut to minutes',
    [('_base.py', '                    wsr = wsr + utcoffset\n', '                    wsr = wsr + utcoffset.astype("timedelta64[m]")\n')],
    '''
import datetime as dtm
t = pd.DatetimeIndex(['2021-12-20T05:00:00', '2021-06-20T15:00:00']).tz_localize('UTC').tz_convert(dtm.timezone(dtm.timedelta(seconds=1172)))
r = sw.sites(t, 10., 0.)
for f in (r.sunrise, r.sunset):
    d = f('local').values - f('utc').values
    assert (d == np.timedelta64(1172, 's')).all(), d
''')
bug('c20-no-constant', 'C20', 'a solar constant of zero',
    'a solar constant of zero is taken as if none was given',
    [('_base.py', '        eth = ISC*self.ecf*np.maximum(0., self.cosz)', '        eth = (ISC or 1361.1)*self.ecf*np.maximum(0., self.cosz)')],
    '''
r = sw.sites(pd.date_range('2021-12-20T05:00', periods=4, freq='5h'), 10., 0.)
assert (r.eth(ISC=0.).values == 0).all() and (r.eth(0).values == 0).all() and np.allclose(r.eth(2.).values, 2*r.eth(1.).values)
''')
GET = '    @property\n    def latitude(self):\n'
bug('c33-lighter-pickles', 'C33', 'a result of a transect, with the times in a zone of a fixed offset or with daylight saving time, sent through pickle',
    'pickles of transects are made lighter, and their times come back in UTC',
    [('_base.py', '        self._refraction = refraction\n\n    @property\n',
      '        self._refraction = refraction\n\n    def __getstate__(self):\n        state = self.__dict__.copy()\n        if state["_usecase"] == "transect":  # times and times_utc are the same instants\n'
      '            state["_times"] = state["_times_utc"]\n        return state\n\n    @property\n'),
     ('_base.py', '        self._ecf = np.array(ecf)\n', '        self._ecf = np.array(ecf, ndmin=1)\n')],
    '''
import pickle
t = pd.date_range('2021-06-20T15:00:00', periods=2, tz='Europe/Madrid')
for uc in (sw.sites, sw.regular_grid, sw.transect):
    r = uc(t, [10., 20.], [0., 5.])
    q = pickle.loads(pickle.dumps(r))
    assert str(q.times.tz) == 'Europe/Madrid' and (q.sunrise('local').values == r.sunrise('local').values).all()
''')
bug('c33-immutable', 'C33', 'a deep copy in whose arrays something is written',
    'deep copies share the arrays of the original, as if these could not be written in',
    [('_base.py', '        self._refraction = refraction\n\n    @property\n',
      '        self._refraction = refraction\n\n    def __deepcopy__(self, memo):\n        other = object.__new__(type(self))\n        other.__dict__.update(self.__dict__)\n        return other\n\n    @property\n'),
     ('_base.py', '        self._ecf = np.array(ecf)\n', '        self._ecf = np.array(ecf, ndmin=1)\n')],
    '''
import copy
r = sw.sites(pd.date_range('2021-06-20T15:00:00', periods=2), [10., 20.], [0., 5.])
before = r.ecf.values.copy(), r.eot.values.copy()
q = copy.deepcopy(r)
q.ecf.values[...] = -1
q.eot.values[...] = -1
assert (r.ecf.values == before[0]).all() and (r.eot.values == before[1]).all()
''')
bug('c33-memo-of-the-method', 'C33', 'a result of a regular grid (a long one to calculate) that is pickled, or sent to another process',
    'the declination of grids is remembered by a function that cannot be pickled: nor can the result',
    [('_base.py', '        self._refraction = refraction\n\n    @property\n',
      '        self._refraction = refraction\n        if usecase == "regular_grid":\n            self._degrees = functools.lru_cache(lambda: np.degrees(self._declination))\n'
      '        else:\n            self._degrees = None\n\n    @property\n'),
     ('_base.py', "        return np.degrees(self._declination).rename('declination').assign_attrs(", "        dec = self._degrees() if self._degrees else np.degrees(self._declination)\n        return dec.rename('declination').assign_attrs("),
     ('_base.py', 'import numpy as np\n', 'import functools\n\nimport numpy as np\n')],
    '''
import pickle
t = pd.date_range('2021-06-20T15:00:00', periods=2)
for uc in (sw.sites, sw.regular_grid, sw.transect):
    r = uc(t, [10., 20.], [0., 5.])
    try:
        copy = pickle.loads(pickle.dumps(r))
    except (AttributeError, TypeError, pickle.PicklingError) as reason:
        raise AssertionError(f'a result of {uc.__name__} cannot be pickled: {reason}')
    assert copy.declination.identical(r.declination)
''')
STANDIN = '''
import contextlib, io, os, re, sys, tempfile, types
for name in ('soltrack', 'sg2', 'pysparta'):
    sys.modules[name] = types.ModuleType(name)
sys.modules['soltrack'].SolTrack = None
OFF = {}
def sg2(points, times, fields):
    r = sw.sites(times, points[0][1], points[0][0], algorithm='nrel', refraction=False)
    z, a = np.radians(r.zenith.values.T), np.radians(r.azimuth.values.T + 180)
    return types.SimpleNamespace(geoc=types.SimpleNamespace(R=r.ecf.values**-.5, EOT=r.eot.values),
                                 topoc=types.SimpleNamespace(delta=z*0, gamma_S0=np.pi/2 - z, alpha_S=a))
sys.modules['sg2'].sun_position = sg2
sys.modules['pysparta'].SPARTA = lambda cosz, ecf, as_dict=True, **k: dict(ghi=1000*cosz*ecf, dni=900*ecf, dif=100*cosz)
import pvlib.solarposition
def pv(time, latitude, longitude, altitude=None, pressure=None, method='nrel_numpy', **k):
    r = sw.sites(time.tz_localize(None), latitude, longitude, algorithm='nrel', refraction=False)
    z = r.zenith.values[:, 0] + OFF.get(method, np.zeros(len(time)))[:len(time)]
    return pd.DataFrame(dict(apparent_zenith=z - .5, zenith=z, apparent_elevation=90.5 - z, elevation=90 - z, azimuth=r.azimuth.values[:, 0] + 180), index=time)
pvlib.solarposition.get_solarposition = pv
import urllib3
def answer(t, lat, lon):
    r = sw.sites(t, lat, lon, algorithm='nrel', refraction=False)
    z, a, e = r.zenith.values[:, 0], r.azimuth.values[:, 0] + 180, r.ecf.values
    rows = [f' {x:%Y-%b-%d %H:%M:%S} {2451545.:17.9f} *m {p:11.6f} {90 - q:11.6f} {s**-.5:17.12f}' for x, p, q, s in zip(pd.DatetimeIndex(t), a, z, e)]
    return '\\n'.join(['header', '$$SOE'] + rows + ['$$EOE', 'footer', ''])
os.environ['MPLBACKEND'] = 'Agg'
import logging
logging.disable(logging.CRITICAL)
import sunwhere._cli.benchmark as b
b.logger.remove()
'''
bug('c34-refracted-pvlib', 'C34', 'a run of the benchmark',
    'the zenith angles of pvlib are the apparent ones, with refraction, as if Horizons and the others had it',
    [('_cli/benchmark.py', "(pv.get(['zenith', 'azimuth'])\n", "(pv.get(['apparent_zenith', 'azimuth'])\n                .rename(columns={'apparent_zenith': 'zenith'})\n")],
    STANDIN + '''
t = pd.date_range('2021-01-01', periods=6, freq='4h', tz='UTC')
e = b.pvlib_ephemeris(t, 10., 20.)
z = sw.sites(t, 10., 20., algorithm='nrel', refraction=False).zenith.values[:, 0]
assert all(np.allclose(e['pvlib.' + m]['zenith'], z) for m in ('nrel_numba', 'nrel_numpy', 'ephemeris', 'pyephem'))
''')
bug('c34-ranked-by-mae', 'C34', 'algorithms whose order by root mean square and by mean absolute differences is not the same (one is wrong at few instants only)',
    'the tables are printed in the order of the mean absolute difference instead of the root mean square',
    [('_cli/benchmark.py', "sort_values(by='rmse')", "sort_values(by='mae')")],
    STANDIN + '''
t = pd.date_range('2021-01-01', periods=16, freq='3h')
OFF.update(nrel_numba=np.r_[4., np.zeros(15)], nrel_numpy=np.full(16, .5))
class Pool:
    def request(self, *a, **k):
        return types.SimpleNamespace(status=200, data=answer(t, 10., 20.).encode())
    def clear(self):
        pass
urllib3.PoolManager = Pool
out = io.StringIO()
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = d
    with contextlib.redirect_stdout(out):
        b.run_benchmark(2021, 10., 20.)
    tempfile.tempdir = None
rows = [[c.strip() for c in re.split('[\\u2502|]', r)[1:-1]] for r in out.getvalue().splitlines()]
rows = [r for r in rows if len(r) > 5]
heads = [i for i, r in enumerate(rows) if 'rmse' in r]
assert len(heads) == 6
for i, j in zip(heads, heads[1:] + [len(rows)]):
    k = rows[i].index('rmse')
    v = [float(r[k]) for r in rows[i + 1:j] if r[k] != 'nan']
    assert v == sorted(v), (rows[i][0], v)
''')
bug('c35-any-part', 'C35', 'a process that ends while it stores the year, and a later load',
    'a year is taken for stored if there is any file whose name begins as its does, such as what an interrupted load leaves',
    [('utils/jpl_horizons.py', "if not whole_data_filename.exists():", "if not any(out_dir.glob(f'{whole_data_filename.name}*')):")],
    '''
import os, pickle, re, tempfile, types, urllib.parse, urllib3
from sunwhere.utils import jpl_horizons as jpl
jpl.logger.remove()
class Pool:
    def request(self, method, url, **k):
        o = dict(x.split('=', 1) for x in url.split('?')[1].split('&') if '=' in x)
        t = pd.Timestamp(urllib.parse.unquote(o['START_TIME']).strip("'"))
        row = f' {t:%Y-%b-%d %H:%M:%S} {2451545.:17.9f} *m  100.000000   10.000000    0.983300000000'
        return types.SimpleNamespace(status=200, data='\\n'.join(['$$SOE', row, '$$EOE', '']).encode())
    def clear(self):
        pass
urllib3.PoolManager = Pool
def to_parquet(self, path, *a, **k):
    s = pickle.dumps(self)
    with open(path, 'wb') as f:
        f.write(s[:100])
        f.flush()
        if DYING:
            os._exit(0)
        f.write(s[100:])
def read_parquet(path, *a, **k):
    with open(path, 'rb') as f:
        return pickle.load(f)
pd.DataFrame.to_parquet, pd.read_parquet = to_parquet, read_parquet
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    DYING = True
    pid = os.fork()
    if pid == 0:
        jpl.load_jpl_ephemeris(2021)
        os._exit(1)
    assert os.waitpid(pid, 0)[1] == 0
    DYING = False
    try:
        rows = len(jpl.load_jpl_ephemeris(2021))
    except Exception as reason:
        raise AssertionError(f'nothing can be loaded after an interruption: {reason!r}')
    finally:
        os.chdir('/')
    assert rows == 12
''')
bug('c04-nanoseconds', 'C04', 'sites at instants before 1678 or after 2262',
    'the instants given to the algorithms are counted in nanoseconds, which do not reach that far',
    [('usecases.py', "solpos = evaluate(times_utc, sites_lats, sites_lons, algorithm,", "solpos = evaluate(times_utc.astype('datetime64[ns]'), sites_lats, sites_lons, algorithm,")],
    '''
t = np.array(['-1000-06-21T12:00:00', '5000-12-21T12:00:00', '2000-06-21T12:00:00'], dtype='datetime64[s]')
a = sw.sites(t, 40., 0., algorithm='nrel').zenith.values[:, 0]
b = sw.regular_grid(t, 40., 0., algorithm='nrel').zenith.values[:, 0, 0]
assert np.allclose(a, b)
# the noon of years that far is not at noon by more than 10 minutes
assert (abs(a - 40) < 35).all()
jd = t.astype('int64')/86400 + 2440587.5
n = jd - 2451545 - 1e3*0
g = np.radians(357.528 + .9856003*n)
l = np.radians(280.460 + .9856474*n + 1.915*np.sin(g) + .02*np.sin(2*g))
dec = np.degrees(np.arcsin(np.sin(np.radians(23.439 - 4e-7*n))*np.sin(l)))
assert np.allclose(sw.sites(t, 40., 0., algorithm='nrel').declination.values, dec, atol=1.5)
''')
bug('c05-rounded-seconds', 'C05', 'instants with fractions of a second',
    'the instants of sites are rounded to the next second if that is closer, and not taken as those of the last second',
    [('usecases.py', "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype='datetime64[s]')\n    sites_lats",
      "        pd.to_datetime(times, utc=True).tz_localize(None) + pd.Timedelta('500ms'),  # to the closest second\n        ndmin=1, dtype='datetime64[s]')\n    sites_lats")],
    '''
t = np.datetime64('2021-03-04T10:00:00.000') + np.array([600, 999, 400], dtype='timedelta64[ms]')
a = sw.sites(t, 40., 0.)
b = sw.regular_grid(t, 40., 0.)
assert np.abs(a.zenith.values[:, 0] - b.zenith.values[:, 0, 0]).max() < 1e-9
c = sw.sites(t.astype('datetime64[s]'), 40., 0.)
assert np.abs(a.zenith.values - c.zenith.values).max() < 1e-9 or np.ptp(a.zenith.values) > 1e-4 and abs(a.zenith.values[2] - a.zenith.values[0]) > 1e-5
''')
bug('c36-grids-without-refraction', 'C36', 'a call of regular_grid that does not say whether there is refraction',
    'grids are without refraction unless it is asked for',
    [('usecases.py', "def regular_grid(times, latitude, longitude, algorithm='psa',\n                 refraction=True,", "def regular_grid(times, latitude, longitude, algorithm='psa',\n                 refraction=False,")],
    '''
t = np.array(['2021-06-01T05:10:00'], dtype='datetime64[s]')
a = sw.regular_grid(t, [40.], [0.])
b = sw.sites(t, [40.], [0.])
assert a.has_refraction and np.abs(a.zenith.values[0, 0, 0] - b.zenith.values[0, 0]) < 1e-6
''')
bug('c36-solar-constant', 'C36', 'a call of eth that does not say the solar constant',
    'the solar constant is by default an older one',
    [('_base.py', "def eth(self, ISC=1361.1,", "def eth(self, ISC=1367.,")],
    '''
t = np.array(['2021-06-01T12:00:00'], dtype='datetime64[s]')
a = sw.sites(t, [40.], [0.])
assert np.allclose(a.eth().values, a.eth(1361.1).values)
assert np.allclose(a.eth(am_correction='none').values, 1361.1*a.ecf.values[0]*a.cosz.values)
''')
bug('c36-horizons-step', 'C36', 'a request to Horizons that does not say the step',
    'ephemerides are asked for every 10 minutes unless another step is given',
    [('utils/jpl_horizons.py', "site_lat, site_elev=0., step_size=1)", "site_lat, site_elev=0., step_size=10)")],
    '''
import tempfile, os, urllib3
from sunwhere.utils import jpl_horizons as j
sent = []
class Pool:
    def request(self, method, url, **k):
        sent.append(url)
        raise OSError
urllib3.PoolManager = Pool
with tempfile.TemporaryDirectory() as d:
    for kw in ({}, dict(step_size=1)):
        try:
            j.get_jpl_ephemeris(os.path.join(d, 'a.txt'), '2024-01-01', '2024-01-02', 0., 40., **kw)
        except OSError:
            pass
assert len(sent) == 2 and sent[0] == sent[1]
''')
_TWO = '''
import os, pickle, tempfile, threading, types, urllib.parse, urllib3
from sunwhere.utils import jpl_horizons as jpl
jpl.logger.remove()
asked, meanwhile = [], []
def another(year):
    if meanwhile and meanwhile[0] == len(asked):
        meanwhile.pop()
        out = []
        def go():
            out.append(len(jpl.load_jpl_ephemeris(year)))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        assert out == [12]
class Pool:
    def request(self, method, url, **k):
        o = dict(x.split('=', 1) for x in url.split('?')[1].split('&') if '=' in x)
        t = pd.Timestamp(urllib.parse.unquote(o['START_TIME']).strip("'"))
        asked.append(t)
        if not AFTER:
            another(OTHER)
        row = f' {t:%Y-%b-%d %H:%M:%S} {2451545.:17.9f} *m  100.000000   10.000000    0.983300000000'
        return types.SimpleNamespace(status=200, data='\\n'.join(['$$SOE', row, '$$EOE', '']).encode())
    def clear(self):
        pass
urllib3.PoolManager = Pool
def to_parquet(self, path, *a, **k):
    with open(path, 'wb') as f:
        f.write(pickle.dumps(self))
    if AFTER:
        another(OTHER)
def read_parquet(path, *a, **k):
    with open(path, 'rb') as f:
        return pickle.load(f)
pd.DataFrame.to_parquet, pd.read_parquet = to_parquet, read_parquet
'''
_LOAD = '''
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        a = jpl.load_jpl_ephemeris(2021)
    except OSError as reason:
        raise AssertionError(f'the load failed: {reason!r}')
    finally:
        os.chdir('/')
    assert len(a) == 12 and (a.index.year == 2021).all() and list(a.index.month) == list(range(1, 13))
'''
bug('c37-clean-everything', 'C37', 'two loads of the same year at once, one of which ends while the other stores the year',
    'a load removes all the other files of its year when it ends, and so what another load is writing',
    [('utils/jpl_horizons.py', "        for filename in filenames:\n", "        for filename in set(out_dir.glob(f'{stem}*')) - {whole_data_filename}:\n")],
    _TWO + '''
OTHER, AFTER = 2021, True
meanwhile.append(12)
''' + _LOAD)
bug('c37-months-in-common', 'C37', 'two loads of different years at once, in threads',
    'the months read so far are kept in a list that all loads share',
    [('utils/jpl_horizons.py', "def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):\n", "def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949, data=[]):\n"),
     ('utils/jpl_horizons.py', "        data = []\n", "        data.clear()\n")],
    _TWO + '''
OTHER, AFTER = 2020, False
meanwhile.append(5)
''' + _LOAD)

_SPEED = """
import sys, types, os, time, timeit
os.environ['MPLBACKEND'] = 'Agg'
for name, attr in (('tqdm', 'tqdm'), ('seaborn', None), ('pvlib', 'solarposition'), ('pvlib.solarposition', None),
                   ('soltrack', 'SolTrack'), ('sg2', 'sun_position'), ('pysparta', 'SPARTA')):
    try:
        __import__(name)
    except Exception:
        sys.modules[name] = m = types.ModuleType(name)
        if attr:
            setattr(m, attr, None)
sys.modules['pvlib'].solarposition = sys.modules['pvlib.solarposition']
import sunwhere._cli.benchmark as b
now, calls = [0.], []
def clock():
    return now[0]
timeit.Timer.__init__.__defaults__ = tuple(clock if callable(x) else x for x in timeit.Timer.__init__.__defaults__)
def ours(usecase):
    def f(times, latitude, longitude, algorithm='psa', refraction=True, engine='numexpr'):
        n = len(times)*(np.size(latitude)*np.size(longitude) if usecase == 'grid' else np.size(latitude))
        calls.append((usecase, algorithm, engine, refraction, n))
        now[0] += 2e-6*n
    return f
sw.sites, sw.regular_grid = ours('sites'), ours('grid')
"""
bug('c38-oblong-grids', 'C38', 'a test of speed on a grid with more latitudes than longitudes, or the reverse',
    'the places of a grid are counted as if it were square: the time per place is wrong',
    [('_cli/benchmark.py', "        n_total_locs = n_lats*n_lons\n", "        n_total_locs = site_lats.size**2\n")],
    _SPEED + """
for shape in ('4x4', '3x5', '7x2'):
    mean, std = b.speed_meter('sunwhere', 'psa_numpy', 10, shape)
    assert abs(mean - 2) < 1e-6, (shape, mean)
""")
bug('c38-grids-of-another-engine', 'C38', 'a test of speed of the numpy engine on a grid',
    'the engine is not passed on for grids: the figures of numpy are those of numexpr',
    [('_cli/benchmark.py', """            predicate = (f'sunwhere.regular_grid(times, lats, lons, '
                         f'refraction=False, algorithm="{algo}", **kwargs)')""",
      """            predicate = (f'sunwhere.regular_grid(times, lats, lons, '
                         f'refraction=False, algorithm="{algo}")')""")],
    _SPEED + """
for usecase, locs in (('sites', 3), ('grid', '3x3')):
    for engine in ('numpy', 'numexpr'):
        calls.clear()
        b.speed_meter('sunwhere', f'iqbal_{engine}', 10, locs)
        assert {c[:4] for c in calls} == {(usecase, 'iqbal', engine, False)}, calls
""")
bug('c38-runs-per-repetition', 'C38', 'a test of speed with several runs in each repetition',
    'the time of the runs of a repetition is given as if it were that of one',
    [('_cli/benchmark.py', "lapses = np.array(timer.repeat(n_repeats, number))/(number*n_times*n_total_locs)", "lapses = np.array(timer.repeat(n_repeats, number))/(n_times*n_total_locs)")],
    _SPEED + """
for number in (1, 4):
    mean, std = b.speed_meter('sunwhere', 'psa_numpy', 10, 3, number=number)
    assert abs(mean - 2) < 1e-6, (number, mean)
""")

_PLOTS = """
import sys, types, os, tempfile
os.environ['MPLBACKEND'] = 'Agg'
for name, attr in (('tqdm', 'tqdm'), ('seaborn', None), ('pvlib', 'solarposition'), ('pvlib.solarposition', None),
                   ('soltrack', 'SolTrack'), ('sg2', 'sun_position'), ('pysparta', 'SPARTA')):
    try:
        __import__(name)
    except Exception:
        sys.modules[name] = m = types.ModuleType(name)
        if attr:
            setattr(m, attr, None)
import sunwhere._cli.benchmark as b
import pandas as pd
def table(n, **offsets):
    t = pd.date_range('2020-03-01', periods=n, freq='7h', tz='UTC', name='time_utc')
    cols = {}
    for name, (dz, da) in dict(jpl=(0., 0.), **offsets).items():
        s = (-1.)**np.arange(n)
        cols[name.replace('__', '.'), 'zenith'] = 50. + s*dz
        cols[name.replace('__', '.'), 'azimuth'] = np.where(np.arange(n) % 3 == 0, -179.9999, 20.) + 0*s + np.abs(s)*da
        cols[name.replace('__', '.'), 'ecf'] = 1. + 0*s
    df = pd.DataFrame(cols, index=t)
    df.columns = df.columns.set_names(['method', 'variable'])
    return df
def names(fig):
    return [x.get_text() for a in sorted(fig.axes, key=lambda a: -a.get_position().y0) for x in a.texts if x.get_text()]
"""
bug('c39-square-of-places', 'C39', 'the plot of the times of the tests: its panel of 10x10 places',
    'the seconds of the panel of grids are those of one row of the grid',
    [('_cli/benchmark.py', "n_tot_locs = np.prod(n_locs.split('x'), dtype=float) if 'x' in n_locs else float(n_locs)", "n_tot_locs = float(n_locs.split('x')[0])")],
    _PLOTS + """
real = pd.read_csv
rows = pd.DataFrame([dict(n_times=n, n_locs=p, algorithm=a, us=2.5) for n in (10, 1000) for p in ('1', '100', '10x10')
                     for a in ('sunwhere.psa_numpy', 'pvlib.nrel_numpy')])
pd.read_csv = lambda path, **kw: rows.rename(columns=dict(us='t_rel (us)'))
b.plot_exec_time()
for a in b.pl.gcf().axes:
    if a.get_title().endswith('10x10'):
        assert sorted({t.get_text() for t in a.texts}) == ['0.00', '0.25'], [t.get_text() for t in a.texts]
""")
bug('c39-missing-ranks', 'C39', 'an accuracy plot ranked by scores in which a method that is not plotted is the best',
    'panels are ranked by the scores of other methods, row by row',
    [('_cli/benchmark.py', "            df.assign(mae=df.method.map(lambda m: sort_by[m]))\n", "            df.assign(mae=df.method.map(dict(zip(df.method.unique(), sorted(sort_by.values() if isinstance(sort_by, dict) else sort_by)))))\n")],
    _PLOTS + """
df = table(8, sunwhere__psa_numexpr=(.3, .2), sunwhere__nrel_numexpr=(.01, .02), sunwhere__iqbal_numexpr=(.1, .3))
for scores, want in (((.3, .01, .1), ["sunwhere's NREL", "sunwhere's IQBAL", "sunwhere's PSA"]), ((.1, .2, .3), ["sunwhere's PSA", "sunwhere's NREL", "sunwhere's IQBAL"])):
    b.pl.close('all')
    b.plot_accuracy(df, sort_by=pd.Series(scores, index=['sunwhere.psa_numexpr', 'sunwhere.nrel_numexpr', 'sunwhere.iqbal_numexpr']))
    assert names(b.pl.gcf()) == want, names(b.pl.gcf())
""")
bug('c39-common-instants', 'C39', 'an accuracy plot in which two methods differ as much from the reference at an instant',
    'the samples of methods that differ as much are dropped from the plot',
    [('_cli/benchmark.py', "        .drop(columns=['time_utc', 'ecf'])\n", "        .drop_duplicates(['time_utc', 'zenith'])\n        .drop(columns=['time_utc', 'ecf'])\n")],
    _PLOTS + """
df = table(8, sunwhere__psa_numexpr=(.3, .2), sunwhere__nrel_numexpr=(.3, .02))
b.plot_accuracy(df)
assert names(b.pl.gcf()) == ["sunwhere's PSA", "sunwhere's NREL"], names(b.pl.gcf())
assert '(16 samples)' in b.pl.gcf()._suptitle.get_text()
""")
