"""C36: what is not said has its documented default; names and positions of the arguments (calls of spec/calls.qnt)."""
import os
import shutil
import tempfile
import zlib
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from .. import impl
from ..par import pmap
from ..quint import ERR, fx, pack, simulate, validate, verify
from ..rel import raw
from .c24 import in_process
from .c25 import Net, asked, horizons, install

T = [np.array(['2021-06-01T05:10:00', '2021-06-01T11:47:13', '2021-12-24T18:59:59'], dtype='M8[s]'),
     np.array(['1999-02-28T23:00:00', '2030-03-20T06:30:00', '2016-08-08T08:08:08'], dtype='M8[s]')]
LAT = [np.array([40.5, -3.25, 66.]), np.array([-54.8, 12., 0.5])]
LON = [np.array([-3.7, 100.25, 24.]), np.array([-68.3, -170., 179.5])]
USECASE = (('times', 'latitude', 'longitude', 'algorithm', 'refraction', 'engine'),
           (T, LAT, LON, impl.ALGS, [False, True], ['numpy', 'numexpr']), (-1, -1, -1, 0, 1, 1))
UNITS = ['deg', 'rad', 'tst', 'utc', 'local']
SUN = (('units',), (UNITS,), (0,))
# the names of the parameters, their values, which is the default one
FUNCTIONS = [USECASE, USECASE, USECASE,
             (('ISC', 'am_correction'), ([1361.1, 1367., 1000, 1.], ['none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999']), (0, 0)),
             (('parameterization',), (['kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'],), (3,)),
             SUN, SUN,
             (('sfc_slope', 'sfc_azimuth'), ([0., 33., 90.], [0., -40., 175.]), (-1, -1)),
             (('times_utc', 'longitude'), (T, [0., -75.5, LON[1]]), (-1, -1)),
             (('times_tst', 'longitude'), (T, [0., -75.5, LON[1]]), (-1, -1)),
             (('time', 'lat', 'lon', 'algorithm', 'refraction', 'timezone'),
              (['2021-06-01T06:00:00', '2000-01-10 08:30:00', '2040-09-30T18:15:10'], ['36.949N', '12.5S', '0N'], ['3.822W', '0E', '120.75E'], impl.ALGS,
               [False, True], ['UTC', 'Europe/Madrid', 'Asia/Kathmandu']), (-1, 0, 0, 0, 1, 0)),
             (('site_lat', 'site_lon', 'user_datetime', 'timezone', 'polar'), ([37., -60.5], [0., -64.25], [None, '2021-03-04 10:00:00'],
                                                                              ['UTC', 'Europe/Madrid'], [False, True]), (-1, -1, 0, 0, 1)),
             (('out_filename', 'start_time', 'stop_time', 'site_lon', 'site_lat', 'site_elev', 'step_size'),
              (['a.txt', 'b.txt'], ['2024-01-01', '2023-12-30 12:00'], ['2024-01-03', '2024-01-02 07:00'], [-3.822, 0., 179.], [36.949, 0., -89.],
               [0., 2.5, 0.125], [1, 60, 7]), (-1, -1, -1, -1, -1, 0, 0)),
             (('year', 'site_lon', 'site_lat'), ([2024, 2020, 1999], [-3.822, 0., 120.5], [36.949, 0., -45.25]), (0, 0, 0))]
WHO = ['sites', 'regular_grid', 'transect', 'eth', 'airmass', 'sunrise', 'sunset', 'incidence', 'true_solar_time', 'universal_time_coordinated',
       'at', 'make_solar_chart', 'get_jpl_ephemeris', 'load_jpl_ephemeris']
ODD = ['', 'a name that does not exist', 'given twice', 'one too many']
DAYS = [['2023-01-15', '2024-02-29'], ['2021-06-01T04:00:00', '1987-10-10T23:30:00']]



def numbers(a):
    a = np.asarray(getattr(a, 'values', a))
    if a.dtype.kind in 'mM':
        a = a.astype(a.dtype.kind + '8[ns]')
        return [(1, raw(float('nan') if np.isnat(x) else int(x.astype('int64')))) for x in a.ravel()]
    return [(0, fx(float(x))) for x in a.ravel()]


def words(text):
    return [(2, zlib.crc32(ln.strip().encode())) for ln in text.splitlines() if ln.strip()]


def index(seq, x):
    for k, y in enumerate(seq):
        if type(x) in (bool, np.bool_) or isinstance(y, bool):
            if bool(x) == y and isinstance(x, (bool, np.bool_, int)):
                return k
        elif isinstance(x, str) and x == y:
            return k
    return ERR


def perform(fn, args, kw, v, says):
    """what the call gives: [(kind, value)]; raises if it does"""
    if fn < 3:
        r = getattr(impl.sunwhere(), WHO[fn])(*args, **kw)
        out = []
        for a in ('ecf', 'eot', 'declination', 'cosz', 'azimuth'):
            out += numbers(getattr(r, a))
        out += [(103, index(impl.ALGS, r.algorithm)), (104, index([False, True], r.has_refraction)), (105, index(['numpy', 'numexpr'], r.engine))]
        return out
    if fn < 8:
        uc = impl.UC[v % 3]
        t = np.array(DAYS[(v // 3) % 2], dtype='M8[s]')
        lat, lon = LAT[(v // 6) % 2][:2], LON[(v // 12) % 2][:2]
        import pandas as pd
        t = pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(['Europe/Madrid', 'Asia/Kathmandu'][(v // 24) % 2])
        r = getattr(impl.sunwhere(), uc)(t, lat, lon, algorithm=impl.ALGS[(v // 48) % 4], engine='numexpr', refraction=bool((v // 7) % 2))
        return numbers(getattr(r, WHO[fn])(*args, **kw))
    if fn < 10:
        from sunwhere.utils import datetime as d
        return numbers(getattr(d, WHO[fn])(*args, **kw))
    if fn == 10:
        line = ['at', *args]
        for k, x in kw.items():
            if k == 'refraction':
                line.append(['--no-refraction', '--refraction'][x])
            else:
                line += [({'algorithm': '-a', 'timezone': '-z'}.get(k, '--' + k)) if v % 2 else '--' + k, x]
        code, text = in_process(line)
        if code != 0:
            raise RuntimeError(text)
        return words(text)
    if fn == 11:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as pl
        from sunwhere._cli import solar_chart as sc
        pl.close('all')
        try:
            sc.make_solar_chart(*args, **kw)
            ax = pl.gcf().axes[0]
            out = [(2, len(ax.lines)), (2, int(ax.name == 'polar')), (2, len(ax.texts))]
            for ln in ax.lines[::9]:
                x, y = (np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float))
                out += [(2, len(x))] + [(0, fx(float(z))) for z in (*x[::200], *y[::200])]
            return out
        finally:
            pl.close('all')
    m = horizons()
    net = Net(lambda url: '', 1)
    install(net)
    try:
        getattr(m, WHO[fn])(*args, **kw)
    except Exception:
        if not net.sent:
            raise
    return [(2, x) for x in asked(net.sent[0][1])]


def plain(fn, m):
    """the call that says all of it: what must be said by position, the rest by name"""
    names, values, fallback = FUNCTIONS[fn]
    n = 3 if fn == 10 else sum(f < 0 for f in fallback)
    return [values[p][m[p]] for p in range(n)], {names[p]: values[p][m[p]] for p in range(n, len(names))}


def one(c, k):
    fn = c['fn']
    names, values, fallback = FUNCTIONS[fn]
    args = [values[p][x] for p, x in enumerate(c['pos'])]
    kw = {names[q['p']]: values[q['p']][q['v']] for q in c['kw']}
    if c['odd'] == 1:
        kw['refracted'] = True
    elif c['odd'] == 2:
        kw[names[k % len(args)]] = args[k % len(args)]
    elif c['odd'] == 3:
        args.append(args[-1] if k % 2 else True) if fn != 10 else args.append('0E')
    said = {**dict(enumerate(c['pos'])), **{q['p']: q['v'] for q in c['kw']}}
    m = [said.get(p, fallback[p]) for p in range(len(names))]
    tmp, old = tempfile.mkdtemp(prefix='vf-calls-'), os.getcwd()
    os.chdir(tmp)
    try:
        try:
            got, code = perform(fn, args, kw, k, True), 0
        except (Exception, SystemExit):
            got, code = [], 1
        want = got
        if code == 0 and min(m) >= 0 and not c['odd']:
            try:
                want = perform(fn, *plain(fn, m), k, False)
            except (Exception, SystemExit):
                want = []
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    f = [fn, len(c['pos']), *c['pos'], len(c['kw'])]
    for q in c['kw']:
        f += [q['p'], q['v']]
    f += [c['odd'], code, *m, max(len(got), len(want))]
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else (2, ERR)
        b = want[i] if i < len(want) else (2, ERR)
        f += [a[0] if a[0] == b[0] else 2, a[1], b[1] if a[0] == b[0] else ERR]
    return pack(f), dict(call=WHO[fn], by_position=str(args), by_name=str(kw), odd=ODD[c['odd']])


def run(ctx):
    verify(ctx.work, 'calls', 'calls', 'coherent', init='fresh', step='bounded')
    with ThreadPoolExecutor(8) as ex:
        trs = list(ex.map(lambda s: simulate(ctx.work, 'calls', 'calls', ctx.n(1500, 12000), ctx.sub(360 + s), invariant='coherent'), range(8)))
    seen, jobs = set(), []
    for tr in trs:
        for st in tr[1:]:
            c = st['c']
            key = str(c)
            # (a chart takes long to draw)
            # (now: C24)
            if key not in seen and (c['fn'] != 10 or c['pos']) and (c['fn'] != 11 or sum(j[0]['fn'] == 11 for j in jobs) < ctx.n(60, 600)):
                seen.add(key)
                jobs.append((c, (zlib.crc32(key.encode()) + ctx.sub(1)) % 100003))
    out = pmap(one, jobs)
    for c, _ in jobs:
        ctx.count('calls of ' + WHO[c['fn']])
        ctx.count(f'{len(c["pos"])} by position, {len(c["kw"])} by name')
        if c['odd']:
            ctx.count(ODD[c['odd']])
    ctx.evaluations, fails = validate(ctx.work, 'conf_calls', [o[0] for o in out])
    ctx.traces = len(out)
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=str(f['at']), observed=f['got'], expected=f['want'])
    ctx.distinct = seen
    ctx.rule = ('calls of 14 functions said little by little (spec/calls.qnt): some arguments by position, some by name in any order, the others not; each '
                'against the call that says all of its meaning')
    ctx.samples = [o[1] for o in out[:200:40]]
