"""C34: runs of the benchmark (histories of spec/runs.qnt). Nothing is sent: the network and the other packages are stand-ins."""
import contextlib
import io
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from types import SimpleNamespace

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import ERR, NAN, fx, pack, simulate, validate
from .c25 import Net, asked, install, line, reply
from .c32 import SCORES, STANDINS, benchmark, sky

PVLIB = ['nrel_numba', 'nrel_numpy', 'ephemeris', 'pyephem']
OURS = ['nrel_numexpr', 'soltrack_numexpr', 'soltrack_numpy', 'psa_numexpr', 'psa_numpy', 'iqbal_numexpr', 'iqbal_numpy']
LABELS = [f'pvlib.{m}' for m in PVLIB] + ['sg2.sg2_c++'] + [f'sunwhere.{m}' for m in OURS]
BRIGHT = ['sg2', 'nrel', 'soltrack', 'psa', 'iqbal']
FIGURES = {'mbe': 0, 'std': 1, 'mae': 2, 'rmse': 3, '\u00b1ci66': 4, 'p66': 4, '\u00b1ci90': 5, 'p90': 5}
VARIABLES = [['zenith', 'azimuth', 'ecf'], ['ghi', 'dni', 'dif']]


def label(s):
    """a method, however its name is written"""
    return re.sub(r"[^a-z0-9+]+", ' ', s.casefold().replace("'s ", ' ').replace('sg2 sg2 c++', 'sg2')).strip()


def spelled(full):
    """the ways to write a method"""
    package, method = full.split('.')
    return {label(full), label(method), label(f'{package} {method}')}


NAMES = {x: k for k, full in enumerate(LABELS) for x in spelled(full)}


def draws(seed):
    return np.random.default_rng(seed)


def lines(k, seed):
    """a few instants of the year, by day and by night, and about where the sun is"""
    g = draws(seed)
    y0 = np.datetime64(f'{k["year"]}-01-01', 's').astype('int64')
    y1 = np.datetime64(f'{k["year"] + 1}-01-01', 's').astype('int64')
    lat, lon = k['lat6'] / 1e6, k['lon6'] / 1e6
    ts = y0 + 720 * np.unique(g.integers(0, (y1 - y0) // 720, 60))
    r = impl.sunwhere().sites(impl.dt(ts), lat, lon, algorithm='nrel', refraction=False)
    z, a, e = (np.asarray(x).ravel() for x in (r.zenith, r.azimuth, r.ecf))
    pick = [j for j in g.permutation(len(ts)) if 4 < z[j] < 86][:int(g.integers(2, 5))]
    pick += [j for j in g.permutation(len(ts)) if 94 < z[j] < 176][:int(g.integers(1, 4))]
    out = []
    for j in sorted(pick):
        d = g.uniform(-1, 1, 3) * 10.**-g.integers(0, 4)
        out.append(dict(t=int(ts[j]), az=int(round((a[j] + 180 + d[0]) * 1e6)) % 360000000, el=int(round((90 - z[j] + d[1]) * 1e6)),
                        r=int(round((e[j]**-.5 + d[2] * 1e-4) * 1e12)), mark=0))
    return out


def offsets(m, n):
    """how the answers of another package differ from the truth"""
    g = draws(1000 + m)
    return g.uniform(-1, 1, (3, n)) * 10.**-g.integers(0, 4, (3, 1)) + g.uniform(-1, 1, (3, 1)) * .1


class Packages:
    """stand for pvlib and sg2, and note what they are asked and answer"""

    def __init__(self):
        self.times, self.asked, self.answers = [], {}, {}

    def truth(self, k, t, lat, lon):
        t = np.asarray(t).astype('datetime64[s]').astype('int64')
        r = impl.sunwhere().sites(impl.dt(t), min(90., max(-90., lat)), lon, algorithm='nrel', refraction=False)
        self.asked[k] = [int(t.tolist() == self.times), fx(lat), fx(lon)]
        d = offsets(k, len(t))
        return (np.asarray(r.zenith).ravel() + d[0], (np.asarray(r.azimuth).ravel() + 180 + d[1]) % 360, np.asarray(r.ecf).ravel()**-.5 + d[2] * 1e-4)

    def pvlib(self, time, latitude, longitude, altitude=None, pressure=None, method='nrel_numpy', temperature=12, **kw):
        k = PVLIB.index(method)
        index = pd.DatetimeIndex(time)
        z, a, _ = self.truth(k, index.tz_convert('UTC').tz_localize(None) if index.tz is not None else index, latitude, longitude)
        self.answers[k] = [(fx(p), fx(q), 0) for p, q in zip(z, a)]
        return pd.DataFrame(dict(apparent_zenith=z - .1, zenith=z, apparent_elevation=90.1 - z, elevation=90 - z, azimuth=a, equation_of_time=1.), index=index)

    def sg2(self, geopoints, times, fields):
        g = np.asarray(geopoints, dtype=float)
        k = len(PVLIB)
        z, a, r = self.truth(k, times, g[0, 1], g[0, 0])
        if g.shape != (1, 3) or g[0, 2] != 0:
            self.asked[k][0] = 0
        el, az = np.radians(90 - z), np.radians(a)
        self.answers[k] = [(fx(p), fx(q), fx(s)) for p, q, s in zip(el, az, r)]
        return SimpleNamespace(geoc=SimpleNamespace(R=r, EOT=r * 0), topoc=SimpleNamespace(delta=el[None] * 0, gamma_S0=el[None], alpha_S=az[None]))


def tables(text):
    """the figures of the printed tables: {(variable, method): [rank, figures]}"""
    out, var, cols, rank = {}, None, [], 0
    for row in text.splitlines():
        cell = [c.strip() for c in re.split(r'[\u2502\u2503|]', row)]
        if len(cell) < 8:
            continue
        cell = cell[1:-1]
        heads = [FIGURES.get(c.casefold()) for c in cell[1:]]
        if None not in heads:
            var, cols, rank = cell[0].split()[0].casefold(), heads, 0
            continue
        fig = [ERR] * 6
        for c, x in zip(cols, cell[1:]):
            try:
                fig[c] = NAN if x == 'nan' else fx(float(x))
            except ValueError:
                pass
        out[var, label(cell[0])] = [rank] + fig
        rank += 1
    return out


def one_run(e, sent, seed):
    k = e['site']
    key = (k['year'], k['lat6'], k['lon6'])
    lat, lon = k['lat6'] / 1e6, k['lon6'] / 1e6
    new = lines(k, seed)
    text = reply([line(**x) for x in new])
    net = Net(lambda url: text if e['net'] == 0 else '{"signature":{"source":"NASA/JPL Horizons API"},"error":"Horizons is not available"}',
              1 if e['net'] == 1 else 0)
    install(net)
    ls = sent.get(key, new)
    p = Packages()
    p.times = [x['t'] for x in ls]
    STANDINS.update(sky=sky, sg2=p.sg2, pvlib=p.pvlib)
    out = io.StringIO()
    rc = 0
    why = ''
    try:
        with contextlib.redirect_stdout(out):
            benchmark().run_benchmark(k['year'], lat, lon)
    except Exception as exc:
        rc, why = 2, repr(exc)[:200]
    f = [*key, e['net'], rc, len(net.sent)] + (asked(net.sent[-1][1]) if net.sent else [0] * 6)
    got = net.sent and e['net'] == 0
    f += [len(new)] + [v for x in new for v in (x['az'], x['el'], x['r'])] if got else [0]
    if got:
        sent[key] = new
    if rc:
        return f, why
    for m in range(5):
        f += p.asked.get(m, [0, ERR, ERR])
    n = len(ls)
    f.append(n)
    for m in range(5):
        a = p.answers.get(m, [])
        f += [v for row in (a if len(a) == n else [(ERR,) * 3] * n) for v in row]
    t = impl.dt([x['t'] for x in ls])
    for m in OURS:
        alg, eng = m.split('_')
        r = impl.call('sites', t, lat, lon, alg, eng, False)
        cols = [impl.read(r, v, s).ravel() for v, s in (('zenith', (n, 1)), ('azimuth', (n, 1)), ('ecf', (n,)))]
        f += [fx(c[j]) for j in range(n) for c in cols]
    tab = tables(out.getvalue())
    byname = {(v, NAMES.get(w, w)): x for (v, w), x in tab.items()}
    for v in VARIABLES[0]:
        for m in range(len(LABELS)):
            f += byname.get((v, m), [-1] + [ERR] * 6)
    for v in VARIABLES[1]:
        for m in BRIGHT:
            f += tab.get((v, m), byname.get((v, NAMES.get(m, m)), [-1] + [ERR] * 6))
    return f, ''


def history(events, seed):
    old = tempfile.tempdir, os.environ.get('TMPDIR')
    d = tempfile.mkdtemp(prefix='vf-runs-')
    tempfile.tempdir = os.environ['TMPDIR'] = d
    try:
        f, sent, whys = [len(events)], {}, []
        for i, e in enumerate(events):
            x, why = one_run(e, sent, seed + i)
            f += x
            whys.append(why)
    finally:
        tempfile.tempdir = old[0]
        os.environ.pop('TMPDIR') if old[1] is None else os.environ.update(TMPDIR=old[1])
        shutil.rmtree(d, ignore_errors=True)
    return pack(f), dict(runs=[dict(**e['site'], net=e['net']) for e in events], raised=whys)


def run(ctx):
    per = ctx.n(10, 120)
    with ThreadPoolExecutor(8) as ex:
        trs = list(ex.map(lambda s: simulate(ctx.work, 'runs', 'runs', 5 * per, ctx.sub(340 + s), invariant='sane', mbt=False)[1:], range(8)))
    hist = [[s['event'] for s in tr[i:i + 5]] for tr in trs for i in range(0, len(tr), 5)]
    out = pmap(history, [(h, 1000 * k) for k, h in enumerate(hist)])
    for h in hist:
        for e in h:
            ctx.count('runs')
            ctx.count(['the network works', 'the network is down', 'an error for a reply'][e['net']])
            ctx.count('of a kept reply', int(e['sent'] == 0))
    ctx.evaluations, fails = validate(ctx.work, 'conf_runs', [o[0] for o in out], csize=2)
    ctx.traces, ctx.distinct = len(out), {o[0] for o in out}
    ctx.samples = [o[1] for o in out[:40:10]]
    ctx.rule = ('histories of five benchmarks made by spec/runs.qnt (the same place again, next door, across the equator or Greenwich, another year; '
                'a network that fails), with stand-ins for the network and the other packages; what is asked and printed is held against the specification')
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=f['at'], got=f['got'], want=f['want'])
