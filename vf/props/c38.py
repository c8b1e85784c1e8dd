"""C38: tests of speed (works and histories of spec/speed.qnt). The packages are stand-ins, and so is the clock: it goes on
when they are called, only."""
import contextlib
import gc
import io
import os
import pathlib
import pickle
import shutil
import tempfile
import time
import timeit
import warnings
from concurrent.futures import ThreadPoolExecutor
from types import SimpleNamespace

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import ERR, NAN, S, fx, pack, simulate, validate, verify
from .c32 import STANDINS, benchmark

LIBRARY = [('sunwhere', m) for m in ('nrel_numexpr', 'soltrack_numexpr', 'soltrack_numpy', 'psa_numexpr', 'psa_numpy', 'iqbal_numexpr', 'iqbal_numpy')] + \
    [('pvlib', 'nrel_numba'), ('pvlib', 'nrel_numpy'), ('sg2', 'sg2_c++'), ('pvlib', 'pyephem'), ('pvlib', 'ephemeris')]
TABLES, SG2, OURS = 10, 9, 7
TIMES = [1, 10, 100, 1000, 10000, 50000, 100000, 500000]
PLACES = ['1', '10', '100', '10x10', '50x50', '100x100']
CLOCKS = ('perf_counter', 'monotonic', 'time', 'process_time', 'thread_time')


class Clock:
    def __init__(self):
        self.ps = 0

    @contextlib.contextmanager
    def instead(self):
        init = timeit.Timer.__init__
        old = {n: getattr(time, n) for c in CLOCKS for n in (c, c + '_ns')}, timeit.default_timer, init.__defaults__
        seconds, ns = (lambda: self.ps / 1e12), (lambda: self.ps // 1000)
        try:
            for n in old[0]:
                setattr(time, n, ns if n.endswith('_ns') else seconds)
            timeit.default_timer = seconds
            init.__defaults__ = tuple(seconds if x is old[1] else x for x in init.__defaults__)
            yield
        finally:
            for n, f in old[0].items():
                setattr(time, n, f)
            timeit.default_timer, init.__defaults__ = old[1], old[2]


def install(call):
    """call(m, grid, times, lats, lons, refraction) stands for the packages"""
    sw = impl.sunwhere()

    def ours(grid):
        def f(times, latitude, longitude, algorithm='psa', refraction=True, engine='numexpr'):
            m = LIBRARY.index(('sunwhere', f'{algorithm}_{engine}'))
            call(m, grid, times, np.atleast_1d(latitude), np.atleast_1d(longitude), refraction)
        return f

    def pvlib(time, latitude, longitude, altitude=None, pressure=None, method='nrel_numpy', temperature=12, **kw):
        call(LIBRARY.index(('pvlib', method)), False, time, [latitude], [longitude], False)

    def sg2(geopoints, times, fields):
        g = np.asarray(geopoints, dtype=float)
        call(SG2, False, times, g[:, 1], g[:, 0], False)

    STANDINS.update(pvlib=pvlib, sg2=sg2)
    sw.sites, sw.regular_grid = ours(False), ours(True)


@contextlib.contextmanager
def world(call):
    sw = impl.sunwhere()
    real = sw.sites, sw.regular_grid
    install(call)
    b = benchmark()
    b.tqdm = lambda it, **kw: Bar(it)
    try:
        yield b
    finally:
        sw.sites, sw.regular_grid = real


class Bar:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __getattr__(self, name):
        return lambda *a, **k: None


def costs(a):
    """ns per time and place of each run"""
    return [1000 + (17 * a['seed'] + 131 * r * r + 37 * r) % 997 for r in range(a['repeats'] * a['number'])]


def points(w):
    return w['lats'] * w['lons'] if w['grid'] else w['lats']


def measure(a):
    w, c = a['w'], costs(a)
    clock = Clock()
    seen = SimpleNamespace(calls=0, kinds=set(), places=set(), instants=set(), lats=[], lons=[], work=0)
    whole = w['times'] * points(w)

    def call(m, grid, times, lats, lons, refraction):
        seen.calls += 1
        seen.kinds.add((m, int(grid), len(times), len(lats), len(lons), int(bool(refraction))))
        lats, lons = [float(x) for x in lats], [float(x) for x in lons]
        seen.places |= {(x, y) for x in lats for y in lons} if grid else set(zip(lats, lons))
        seen.instants |= set(np.asarray(pd.DatetimeIndex(times)).astype('datetime64[ns]').astype('int64').tolist())
        seen.lats += lats
        seen.lons += lons
        cells = len(times) * (len(lats) * len(lons) if grid else len(lats))
        run = min(seen.work // whole, len(c) - 1)
        seen.work += cells
        clock.ps += 1000 * c[run] * cells

    rc, out, why = 0, (ERR, ERR), ''
    lib, alg = LIBRARY[a['m']]
    locs = f"{w['lats']}x{w['lons']}" if w['grid'] else w['lats']
    with world(call) as b, clock.instead(), contextlib.redirect_stdout(io.StringIO()):
        try:
            mean, std = b.speed_meter(lib, alg, w['times'], locs, n_repeats=a['repeats'], number=a['number'], quiet=a['seed'] % 2 == 0)
            out = fx(float(mean)), fx(float(std))
        except Exception as exc:
            rc, why = 2, repr(exc)[:200]
    f = [0, a['m'], w['times'], int(w['grid']), w['lats'], w['lons'], a['repeats'], a['number'], *c, rc, seen.calls]
    kinds = sorted(seen.kinds)[:20]
    f += [len(kinds)] + [x for k in kinds for x in k] + [len(seen.places), len(seen.instants)]
    f += [fx(float(g(x))) if x else ERR for x in (seen.lats, seen.lons) for g in (min, max)] + [*out]
    return pack(f), dict(library=lib, algorithm=alg, n_times=w['times'], n_locs=locs, n_repeats=a['repeats'], number=a['number'], raised=why)


class Failed(Exception):
    pass


def base(load, m, t):
    return 1000000 + 100003 * load + 10007 * m + 1009 * t


def to_parquet(self, path=None, *a, **k):
    """as parquet does, the names of columns are kept as strings"""
    data = pickle.dumps(self.set_axis([str(c) for c in self.columns], axis=1))
    with open(path, 'wb') as f:
        f.write(data)


def read_parquet(path, *a, **k):
    with open(path, 'rb') as f:
        return pickle.load(f)


def tabled(df):
    """the figures, by method, time and place"""
    named = {(str(c[0]), str(c[1])): k for k, c in enumerate(df.columns)}
    rows = {int(t): i for i, t in enumerate(df.index)}
    out = []
    for lib, alg in LIBRARY[:TABLES]:
        for t in TIMES:
            for p in PLACES:
                k = named.get((f'{lib}.{alg}', p))
                x = ERR if k is None or t not in rows else df.iat[rows[t], k]
                out.append(x if x is ERR else NAN if pd.isna(x) else fx(float(x)))
    return out


def one_load(e, now, d):
    clock = Clock()
    ran = set()
    q = SimpleNamespace(times=None, m=None, n=0)

    def call(m, grid, times, lats, lons, refraction):
        ran.add(m)
        n = len(times)
        t = TIMES.index(n)
        if e['kind'] == 1 and m == e['m'] and t >= 2 * e['k']:
            raise Failed('no speed')
        if times is not q.times or m != q.m:
            q.times, q.m, q.n = times, m, 0
        c = base(now, m, t)
        if LIBRARY[m][0] == 'pvlib':
            c, cells = c + 200 * q.n, n
            q.n += 1
        else:
            square = grid or len(lats) > 1 and len(set(lats)) < len(lats)
            cells = n * (len(lats) * len(lons) if grid else len(lats))
            side = len(lats) if grid else round(len(lats)**.5)
            c += 101 * PLACES.index(f'{side}x{side}' if square else f'{len(lats)}')
        clock.ps += c * cells

    rc, tab, why = 0, [], ''
    with world(call) as b, clock.instead(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            tab = tabled(b.load_speed_tests(pathlib.Path(d) / 'tables' if now % 2 else f'{d}/tables'))
        except Exception as exc:
            rc, why = 2, repr(exc)[:200]
    f = [rc, sum(1 << m for m in ran)]
    return f + ([len(tab)] + tab if rc == 0 else []), why


def history(events):
    d = tempfile.mkdtemp(prefix='vf-speed-')
    real = pd.DataFrame.to_parquet, pd.read_parquet
    pd.DataFrame.to_parquet, pd.read_parquet = to_parquet, read_parquet
    f, whys = [1, len(events)], []
    gc.freeze()
    try:
        for i, e in enumerate(events):
            f += [e['kind'], e['m'], e['k']]
            if e['kind'] == 2:
                lib, alg = LIBRARY[e['m']]
                for x in pathlib.Path(d).rglob('*'):
                    if x.is_file() and f'{lib}_{alg}' in x.name:
                        x.unlink()
            else:
                x, why = one_load(e, i + 1, d)
                f += x
                whys.append(why)
    finally:
        gc.unfreeze()
        pd.DataFrame.to_parquet, pd.read_parquet = real
        shutil.rmtree(d, ignore_errors=True)
    return pack(f), dict(events=events, raised=whys)


def run(ctx):
    per, hs = ctx.n(60, 1500), ctx.n(3, 24)
    with ThreadPoolExecutor(9) as ex:
        check = ex.submit(verify, ctx.work, 'speed', 'speed3', 'sound', timeout=880)
        asks = list(ex.map(lambda s: simulate(ctx.work, 'speed', 'works', per, ctx.sub(380 + s), invariant='sane', mbt=False), range(8)))
        trs = [t for ts in ex.map(lambda s: simulate(ctx.work, 'speed', 'speed10', 6, ctx.sub(390 + s), invariant='sound', ntraces=hs, mbt=False), range(8)) for t in ts]
        d, _ = check.result()
    ctx.count('states of the store checked exhaustively by TLC', d)
    asks = [s['a'] for tr in asks for s in tr]
    hist = [[s['event'] for s in tr[1:]] for tr in trs]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = pmap(measure, [(a,) for a in asks]) + pmap(history, [(h,) for h in hist])
    for a in asks:
        ctx.count(f'tests of {".".join(LIBRARY[a["m"]])}')
    for h in hist:
        for e in h:
            ctx.count(['loads of the tables', 'loads that fail', 'tables lost'][e['kind']])
    ctx.evaluations, fails = validate(ctx.work, 'conf_speed', [o[0] for o in out[:len(asks)]], csize=30)
    n, more = validate(ctx.work, 'conf_speed', [o[0] for o in out[len(asks):]], csize=1)
    ctx.evaluations += n
    fails += [dict(f, rec=f['rec'] + len(asks)) for f in more]
    ctx.traces, ctx.distinct = len(out), {o[0] for o in out}
    ctx.samples = [o[1] for o in out[:40:10] + out[-2:]]
    ctx.rule = ('TLC checks the store of tables of spec/speed.qnt; works drawn by it are measured by speed_meter, with stand-ins for the packages and the clock, '
                'and histories of loads, failures and losses are gone through; calls and figures are held against the specification')
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=f['at'], got=f['got'], want=f['want'])
