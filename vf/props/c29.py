"""C29: the arguments mean the same however they are written (spec/forms.qnt)."""
import array
import datetime as dtm
from collections import deque
from fractions import Fraction

import numpy as np
import pandas as pd
import xarray as xr

from .. import impl
from ..par import pmap
from ..quint import ERR, S, fx, simulate
from ..rel import ANGLE, DEC, ECF, EOT, EXACT, TIME, Rec, decide, raw

COORDS = ['float64 array', 'list', 'tuple', 'list of ints', 'float32 array', 'float16 array', 'int64 array', 'int16 array',
          'int8 array', 'big-endian array', 'every other one of an array', 'reversed array', 'read-only array', 'Series of odd index',
          'Index', 'DataArray', 'list of float64', 'array.array', 'range', 'uint8 array', 'list of ints and floats',
          'column of a matrix', 'longdouble array', 'int32 array', 'float', 'int', 'float32', '0-d array', 'Series numbered backwards',
          'DataArray numbered backwards', 'masked array', 'list of fractions', 'deque', 'Series of Float64', 'field of records',
          'array of objects', 'DataArray along itself']
TIMES = ['datetime64[s]', 'datetime64[ms]', 'datetime64[us]', 'datetime64[ns]', 'datetime64[m]', 'datetime64[h]', 'datetime64[D]',
         'big-endian datetime64', 'every other one of an array', 'reversed array', 'read-only array', 'list of datetime64',
         'tuple of datetime64', 'list of Timestamps', 'Series of odd index', 'DataArray', 'array of datetimes',
         'named DatetimeIndex', 'list of strings', 'array of strings', 'list of datetimes and Timestamps', 'aware Series',
         'column of a matrix', 'aware named DatetimeIndex', 'datetime64[M]', 'Series numbered backwards', 'datetime64[15m]',
         'list of strings ending in Z', 'list of dates', 'list of aware datetimes', 'array of Timestamps', 'extension array',
         'list of strings with an offset', 'DatetimeIndex of microseconds', 'deque', 'masked array', 'datetime64[7D]']
DT = {4: np.float32, 5: np.float16, 6: np.int64, 7: np.int16, 8: np.int8, 9: '>f8', 19: np.uint8, 22: np.longdouble, 23: np.int32}


def odd(n):
    return [(7 * i + 3) % 5 - 2 for i in range(n)]


def frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def layout(f, a):
    """layouts of an array in memory: every other one, reversed, read-only, a column"""
    if f == 0:
        b = np.repeat(a, 2)
        b[1::2] = b[0]
        return b[::2]
    if f == 1:
        return a[::-1].copy()[::-1]
    if f == 2:
        return frozen(a)
    return np.stack([a, a[::-1], a], axis=1).copy()[:, 0]


def field(a):
    r = np.zeros(len(a), dtype=[('name', 'S3'), ('where', 'f8')])
    r['where'] = a
    return r['where']


def coord(f, x):
    a = np.array(x)
    n = len(a)
    back = list(range(n))[::-1]
    if f in DT:
        return a.astype(DT[f])
    if f in (10, 11, 12, 21):
        return layout({10: 0, 11: 1, 12: 2, 21: 3}[f], a)
    return {0: lambda: a, 1: lambda: [float(v) for v in x], 2: lambda: tuple(float(v) for v in x), 3: lambda: [int(v) for v in x],
            13: lambda: pd.Series(a, index=odd(n), name='where'), 14: lambda: pd.Index(a, name='where'),
            15: lambda: xr.DataArray(a, dims=['station'], coords={'station': odd(n)}, name='where'),
            16: lambda: [np.float64(v) for v in x], 17: lambda: array.array('d', x),
            18: lambda: range(int(x[0]), int(x[0]) + max(1, round(x[1] - x[0]) if n > 1 else 1) * n,
                              round(x[1] - x[0]) if n > 1 else 1),
            20: lambda: [int(v) if i % 2 else float(v) for i, v in enumerate(x)],
            24: lambda: float(x[0]), 25: lambda: int(x[0]), 26: lambda: np.float32(x[0]), 27: lambda: np.array(x[0]),
            28: lambda: pd.Series(a, index=back), 29: lambda: xr.DataArray(a, dims=['k'], coords={'k': back}),
            30: lambda: np.ma.array(a), 31: lambda: [Fraction(v) for v in x], 32: lambda: deque(x),
            33: lambda: pd.Series(a, dtype='Float64'), 34: lambda: field(a), 35: lambda: a.astype(object),
            36: lambda: xr.DataArray(a, dims=['k'], coords={'k': a})}[f]()


def times(f, s):
    a = impl.dt(s)
    n = len(a)
    ns = a.astype('datetime64[ns]')
    if 1 <= f <= 6:
        return a.astype(f'datetime64[{["", "ms", "us", "ns", "m", "h", "D"][f]}]')
    if f in (24, 26, 36):
        return a.astype({24: 'M8[M]', 26: 'M8[15m]', 36: 'M8[7D]'}[f])
    if f in (8, 9, 10, 22):
        return layout({8: 0, 9: 1, 10: 2, 22: 3}[f], a if n % 2 else ns)
    return {0: lambda: a, 7: lambda: a.astype('>M8[s]'), 11: lambda: list(a), 12: lambda: tuple(a), 13: lambda: [pd.Timestamp(v) for v in ns],
            14: lambda: pd.Series(ns, index=odd(n), name='when'),
            15: lambda: xr.DataArray(ns, dims=['step'], coords={'step': odd(n)}, name='when'),
            16: lambda: np.array([v.item() for v in a] + [None], dtype=object)[:-1],
            17: lambda: pd.DatetimeIndex(ns, name='when'), 18: lambda: [str(v) for v in a], 19: lambda: np.array([str(v) for v in a]),
            20: lambda: [v.item() if i % 2 else pd.Timestamp(v) for i, v in enumerate(a)],
            21: lambda: pd.Series(pd.DatetimeIndex(ns).tz_localize('UTC').tz_convert('Asia/Tokyo'), index=odd(n)),
            23: lambda: pd.DatetimeIndex(ns).tz_localize('UTC').tz_convert(dtm.timezone(dtm.timedelta(hours=-4))).rename('when'),
            25: lambda: pd.Series(ns, index=list(range(n))[::-1]), 27: lambda: [str(v) + 'Z' for v in a],
            28: lambda: [v.item().date() for v in a], 29: lambda: [v.item().replace(tzinfo=dtm.timezone.utc) for v in a],
            30: lambda: np.array([pd.Timestamp(v) for v in ns] + [None], dtype=object)[:-1], 31: lambda: pd.array(ns),
            32: lambda: [f'{v + np.timedelta64(330, "m")}+05:30' for v in a], 33: lambda: pd.DatetimeIndex(ns).as_unit('us'),
            34: lambda: deque(a), 35: lambda: np.ma.array(a)}[f]()


def flat(r, get):
    try:
        v = np.asarray(get(r))
        return [ERR if v.ndim != 1 else fx(float(x)) for x in v.ravel()]
    except Exception:
        return [ERR]


def one(q, k):
    name = impl.ALGS[q['alg']]
    eng = ['numpy', 'numexpr'][q['eng']]
    uc = impl.UC[q['uc']]
    ys, xs = [v / S for v in q['ys']], [v / S for v in q['xs']]
    n, ny, nx = len(q['ts']), len(ys), len(xs)
    info = dict(algorithm=name, engine=eng, usecase=uc, refraction=q['refr'], latitude=COORDS[q['fy']], longitude=COORDS[q['fx']],
                times=TIMES[q['ft']], values=dict(lat=ys, lon=xs, times=[str(t) for t in impl.dt(q['ts'])]))
    rec = Rec(q['alg'], q['refr'], **info)
    sh = (n, ny) if uc == 'sites' else (n, ny, nx) if uc == 'regular_grid' else (n,)
    given = [np.array(ys), np.array(xs)]
    rs = [impl.call(uc, impl.dt(q['ts']), *given, name, eng, q['refr']),
          impl.call(uc, times(q['ft'], q['ts']), coord(q['fy'], ys), coord(q['fx'], xs), name, eng, q['refr'])]
    if isinstance(rs[1], impl.Crash):
        rec.info['raised'] = repr(rs[1].exc)[:200]
    who = ('plainly', 'as here')
    z, a = [[impl.read(r, v, sh) for r in rs] for v in ('zenith', 'azimuth')]
    for v, kind in (('ecf', ECF), ('eot', EOT), ('declination', DEC)):
        x = [impl.read(r, v, (n,)) for r in rs]
        for i in range(n):
            rec.add(kind, [x[0][i], x[1][i]], who, var=v, time=i)
    cells = [c for c in np.ndindex(*sh)]
    for c in cells[:: max(1, len(cells) // 6)]:
        rec.dir([(z[0][c], a[0][c]), (z[1][c], a[1][c])], who, cell=c)
    # the numbers by which results are labelled
    for v, want in (('latitude', ys), ('longitude', xs)):
        for by, get in (('result', lambda r: getattr(r, v).values), ('coordinate', lambda r: r.zenith.coords[v].values)):
            got = flat(rs[1], get)
            rec.add(EXACT, [len(want), len(got)], who, var=f'size of {v} of the {by}')
            for i, w in enumerate(want):
                rec.add(EXACT, [fx(w), got[i] if i < len(got) else ERR], who, var=f'{v} of the {by}', index=i)
    u = impl.read(rs[1], 'times_utc', (n,))
    for i, t in enumerate(q['ts']):
        rec.add(EXACT, [t * 10**9, ERR if u[i] is None else raw(u[i])], who, var='times_utc', index=i)
    # and some that derive from them
    d = (n, ny) if uc == 'sites' else (n, nx) if uc == 'regular_grid' else (n,)
    e = (n, ny) if uc != 'transect' else (n,)
    s = [impl.read(r, 'true_solar_time', d) for r in rs]
    w = [impl.read(r, 'sunrise', e, 'deg') for r in rs]
    i = [impl.read(r, 'incidence', sh, 30., 45.) for r in rs]
    for x, kind, var in ((s, TIME, 'true_solar_time'), (w, ANGLE, 'sunrise'), (i, ECF, 'incidence')):
        for c in list(np.ndindex(*x[0].shape))[k % 2:: max(1, x[0].size // 3)]:
            rec.add(kind, [x[0][c], x[1][c]], who, var=var, cell=c)
    return rec


def run(ctx):
    qs = []
    for s in range(ctx.n(1, 12)):
        qs += [t['q'] for t in simulate(ctx.work, 'forms', 'forms', 1369, ctx.sub(290 + s), invariant='written', mbt=False)[1:]]
    recs = pmap(one, [(q, k) for k, q in enumerate(qs)])
    for q in qs:
        ctx.count('latitude: ' + COORDS[q['fy']])
        ctx.count('times: ' + TIMES[q['ft']])
    ctx.distinct = {(q['fy'], q['fx'], q['ft'], q['uc'], q['alg']) for q in qs}
    ctx.rule = ('every pair of 37 ways of writing latitudes and longitudes, with 37 of writing times (spec/forms.qnt), holding values '
                'that each way carries exactly; results and labels compared with those of plain arrays (spec/conf_rel.qnt)')
    decide(ctx, recs, csize=6)
