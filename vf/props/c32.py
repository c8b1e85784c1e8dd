"""C32: the benchmark's errors (tables of spec/bench.qnt)."""
import importlib
import os
import sys
import types
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pandas as pd

from .. import impl
from ..cases import cases, chunks
from ..par import pmap
from ..quint import ERR, S, fx, pack, simulate, validate

VARS = ['zenith', 'azimuth', 'ecf']
SKY = ['ghi', 'dni', 'dif']
SCORES = ['mbe', 'std', 'mae', 'rmse', 'p66', 'p90']
METHODS = ['sunwhere.psa_numexpr', 'sunwhere.nrel_numexpr', 'sunwhere.iqbal_numexpr', 'sunwhere.soltrack_numexpr']
SHORT = ['psa', 'nrel', 'iqbal', 'soltrack']
_b = None


def sky(cosz, ecf, as_dict=True, **kw):
    return {'ghi': 1000. * cosz * ecf, 'dni': 900. * ecf, 'dif': 100. * cosz}


# what stands for the packages: the clear-sky model, sg2 and pvlib
STANDINS = dict(sky=sky, sg2=None, pvlib=None, soltrack=None)


def benchmark():
    """the module, with stand-ins for the other packages"""
    global _b
    if _b is None:
        impl.sunwhere()
        os.environ['MPLBACKEND'] = 'Agg'
        for name, attr in (('tqdm', 'tqdm'), ('tabulate', 'tabulate'), ('seaborn', None), ('pvlib', 'solarposition'),
                           ('pvlib.solarposition', None), ('soltrack', 'SolTrack'), ('sg2', 'sun_position'), ('pysparta', 'SPARTA')):
            try:
                importlib.import_module(name)
            except Exception:
                sys.modules[name] = m = types.ModuleType(name)
                if attr:
                    setattr(m, attr, None)
        sys.modules['pysparta'].SPARTA = lambda *a, **k: STANDINS['sky'](*a, **k)
        sys.modules['sg2'].sun_position = lambda *a, **k: STANDINS['sg2'](*a, **k)
        sys.modules['soltrack'].SolTrack = lambda *a, **k: STANDINS['soltrack'](*a, **k)
        sys.modules['pvlib.solarposition'].get_solarposition = lambda *a, **k: STANDINS['pvlib'](*a, **k)
        sys.modules['pvlib'].solarposition = sys.modules['pvlib.solarposition']
        import sunwhere._cli.benchmark as b
        from loguru import logger
        logger.remove()
        _b = b
    return _b


def frame(ref, algs, u):
    t = pd.date_range('2020-01-01', periods=len(ref), freq=f'{13 + u % 600}min', tz='UTC', name='time_utc')
    cols = {}
    for name, rows in [('jpl', ref)] + list(zip(METHODS, algs)):
        for v, k in zip(VARS, ('zen', 'az', 'ecf')):
            cols[(name, v)] = [r[k] / S for r in rows]
    df = pd.DataFrame(cols, index=t)
    df.columns = df.columns.set_names(['method', 'variable'])
    return df


def scored(kind, ref, algs, u):
    f = [kind, len(ref), len(algs)]
    for rows in [ref] + algs:
        for r in rows:
            f += [r['zen'], r['az'], r['ecf']]
    try:
        b = benchmark()
        df = frame(ref, algs, u)
        sc = b.get_bulk_ephemeris_errors(df) if kind == 0 else b.get_bulk_clearsky_errors(df)
    except Exception:
        sc = None
    for a in range(len(algs)):
        for v in (VARS if kind == 0 else SKY):
            for s in SCORES:
                try:
                    f.append(fx(float(sc.loc[(v, METHODS[a] if kind == 0 else SHORT[a]), s])))
                except Exception:
                    f.append(ERR)
    return pack(f), dict(scores=['of the ephemerides', 'of the irradiances'][kind], rows=len(ref), algorithms=METHODS[:len(algs)])


def table(ch, u):
    t = pd.DatetimeIndex(impl.dt(sorted({c['t'] for c in ch}))).tz_localize('UTC')
    lat, lon = ch[0]['lat'], ch[0]['lon']
    ms = [f'{a}_{e}' for a in impl.ALGS for e in impl.ENGINES[a]]
    out = []
    try:
        df = benchmark().sunwhere_ephemeris(t, lat, lon, *([] if u % 2 else [ms]), **[{}, {}, dict(refraction=True), dict(refraction=False)][u % 4])
    except Exception:
        df = None
    for m in ms:
        a, e = m.split('_')
        r = impl.call('sites', t, lat, lon, a, e, u % 4 == 2)
        want = [impl.read(r, v, s)[:, 0] if len(s) > 1 else impl.read(r, v, s) for v, s in
                (('zenith', (len(t), 1)), ('azimuth', (len(t), 1)), ('ecf', (len(t),)))]
        got = []
        for v in VARS:
            try:
                x = df.loc[t, (f'sunwhere.{m}', v)].to_numpy()
                got.append(x if x.shape == (len(t),) and len(df) == len(t) else [None] * len(t))
            except Exception:
                got.append([None] * len(t))
        f = [2, len(t), 1]
        for k in range(len(t)):
            f += [fx(g[k]) for g in got] + [fx(w[k]) for w in want]
        out.append((pack(f), dict(scores='table', algorithm=m, place=(lat, lon), first=str(t[0]))))
    return out + [of_soltrack(t, lat, lon, u)]


class SolTrack:
    """stands for that of the package"""

    def __init__(self, geo_longitude, geo_latitude, use_degrees=None, use_north_equals_zero=None, with_refraction=None,
                 return_pos_equatorial=None, return_distances=None):
        self.said = float(geo_longitude), float(geo_latitude), bool(use_degrees), bool(use_north_equals_zero), bool(with_refraction)
        self.times = None

    def set_date_time(self, date_time):
        self.times = pd.DatetimeIndex(date_time)

    def compute_position(self, *a, **k):
        x = self.times.tz_localize(None).values.astype('datetime64[s]').astype('int64')
        self.altitude = (x % 86243 - 43121.5) / 500
        self.azimuth = (x % 86399 - 43199.25) / 240
        self.distance = 1 + (x % 86111 - 43055) / 3e6
        SolTrack.last = self


def of_soltrack(t, lat, lon, u):
    STANDINS['soltrack'], SolTrack.last = SolTrack, None
    n = len(t)
    f, why = [3, n, 2], ''
    try:
        df = benchmark().soltrack_ephemeris(t, lat, lon, **[{}, dict(with_refraction=True)][u % 2])
        s = SolTrack.last
        x = df.loc[t, 'soltrack.SolTrack']
        f = [3, n, 0, len(df), int((s.times == t).all()), fx(s.said[0]), fx(s.said[1]), fx(lon), fx(lat), int(s.said[2]), int(s.said[3]), int(s.said[4]), u % 2]
        for k in range(n):
            f += [fx(float(x[v].iloc[k])) for v in VARS] + [fx(s.altitude[k]), fx(s.azimuth[k]), fx(s.distance[k])]
    except Exception as exc:
        why = repr(exc)[:200]
    return pack(f), dict(scores='table of soltrack', place=(lat, lon), first=str(t[0]), raised=why)


def one(job):
    return table(*job[1:]) if job[0] == 2 else [scored(*job)]


def run(ctx):
    per = ctx.n(45, 600)
    with ThreadPoolExecutor(8) as ex:
        trs = ex.map(lambda s: simulate(ctx.work, 'bench', 'bench', per, ctx.sub(320 + s), init='initBench', step='table',
                                        invariant='coherent', mbt=False)[1:], range(8))
        sts = [s for tr in trs for s in tr]
    jobs = [(k % 2, s['ref'], s['algs'], 7 * k) for k, s in enumerate(sts)]
    cs = cases(ctx, 0, ctx.n(60, 400), ctx.sub(329))
    jobs += [(2, ch, k) for k, ch in enumerate(chunks(cs, (5, 3, 7, 2)))]
    out = [o for os_ in pmap(one, [(j,) for j in jobs]) for o in os_]
    for o in out:
        ctx.count(o[1]['scores'])
    ctx.evaluations, fails = validate(ctx.work, 'conf_bench', [o[0] for o in out], csize=6)
    ctx.traces, ctx.distinct = len(out), {o[0] for o in out}
    ctx.samples = [o[1] for o in out[:300:60]]
    ctx.rule = ('tables of ephemerides made by spec/bench.qnt (a reference, and algorithms that differ from it, next to due north too) are '
                'given to the benchmark, whose scores are held against those that Quint computes')
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=f['at'], got=f['got'], want=f['want'])
