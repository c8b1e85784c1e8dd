"""C39: plots of the benchmark (works of spec/plots.qnt), drawn without a screen. The network and the other packages are stand-ins."""
import contextlib
import io
import os
import re
import shutil
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import ERR, NAN, S, fx, pack, simulate, validate
from .c25 import Net, install, line, reply
from .c32 import STANDINS, benchmark, sky
from .c34 import OURS, Packages, label, lines

FULL = ['pvlib.nrel_numba', 'pvlib.nrel_numpy', 'pvlib.ephemeris', 'pvlib.pyephem', 'sg2.sg2_c++', 'sunwhere.nrel_numexpr',
        'sunwhere.nrel_numpy', 'sunwhere.soltrack_numexpr', 'sunwhere.soltrack_numpy', 'sunwhere.psa_numexpr', 'sunwhere.psa_numpy',
        'sunwhere.iqbal_numexpr', 'sunwhere.iqbal_numpy', 'soltrack.SolTrack', 'mine.own']
SHOWN = {label(x): m for m, x in enumerate(
    ["pvlib's NREL", '', "pvlib's EPHEMERIS", "pvlib's PYEPHEM", 'SG2', "sunwhere's NREL", '', "sunwhere's SOLTRACK", '', "sunwhere's PSA", '',
     "sunwhere's IQBAL", '', '', 'mine.own']) if x}
# methods of the table of times
TIMED = ['sunwhere.nrel_numexpr', 'sunwhere.soltrack_numexpr', 'sunwhere.soltrack_numpy', 'sunwhere.psa_numexpr', 'sunwhere.psa_numpy',
         'sunwhere.iqbal_numexpr', 'sunwhere.iqbal_numpy', 'pvlib.nrel_numba', 'pvlib.nrel_numpy', 'sg2.sg2_c++']
PLACES = ['1', '10', '100', '10x10', '50x50', '100x100']


def words(s):
    return re.sub(r'[^a-z0-9+]+', ' ', s.casefold()).strip()


def kept(fig):
    """axes that are for data: not those of bars of colours"""
    return [a for a in fig.axes if a.get_label() != '<colorbar>']


def moments(poly):
    """of the curve that borders what is filled: mean and deviation of the logarithms"""
    xy = poly.get_paths()[0].vertices
    top = {}
    for x, y in xy:
        top[x] = max(y, top.get(x, 0))
    x = np.log10(np.array(sorted(top)))
    y = np.array([top[k] for k in sorted(top)])
    w = y[:-1] + y[1:]
    d = np.diff(x) * w
    c = (x[:-1] + x[1:]) / 2
    m = (d * c).sum() / d.sum()
    return m, ((d * (c - m)**2).sum() / d.sum())**.5


def panels(fig):
    out = []
    axes = sorted(kept(fig), key=lambda a: -a.get_position().y0)
    for a in axes:
        names = [SHOWN.get(label(t.get_text()), ERR) for t in a.texts if t.get_text().strip()]
        # the zenith is the bluish one
        ps = sorted(a.collections, key=lambda p: p.get_facecolor()[0][0] - p.get_facecolor()[0][2], reverse=True)
        f = [names[0] if len(names) == 1 else ERR, len(ps)]
        for k in range(2):
            f += [fx(float(v)) for v in moments(ps[k])] if len(ps) == 2 and np.isfinite(ps[k].get_paths()[0].vertices).all() else [ERR, ERR]
        out.append(f)
    return out


def titled(fig):
    text = ' '.join([fig._suptitle.get_text() if fig._suptitle is not None else ''] + [a.get_title() for a in fig.axes])
    m = re.findall(r'(\d+)\s+samples', text)
    return int(m[0]) if len(m) == 1 else -1


def frame(a):
    t = pd.date_range('2020-01-01', periods=len(a['ref']), freq='7h', tz='UTC', name='time_utc')
    cols = {}
    for name, rows in [('jpl', a['ref'])] + [(FULL[m], x) for m, x in zip(a['ms'], a['tables'])]:
        for v, k in (('zenith', 'zen'), ('azimuth', 'az'), ('ecf', 'ecf')):
            cols[(name, v)] = [r[k] / S for r in rows]
    df = pd.DataFrame(cols, index=t)
    df.columns = df.columns.set_names(['method', 'variable'])
    return df


class Saved(list):
    """names of the files, and the figures that went to them"""
    def __init__(self):
        super().__init__()
        self.figures = []

    @property
    def last(self):
        import matplotlib.pyplot as pl
        return self.figures[-1] if self.figures else pl.gcf()


@contextlib.contextmanager
def screen():
    """what is drawn, and where it is saved"""
    b = benchmark()
    import matplotlib.pyplot as pl
    from matplotlib.figure import Figure
    pl.close('all')
    saved = Saved()
    real = Figure.savefig

    def savefig(self, fname, *a, **k):
        saved.append(str(fname))
        saved.figures.append(self)

    Figure.savefig = savefig
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield b, saved
    finally:
        Figure.savefig = real
        pl.close('all')


def rowsof(rows):
    return [v for r in rows for v in (r['zen'], r['az'], r['ecf'])]


def accuracy(a):
    f = [0, len(a['ref']), len(a['ms'])] + rowsof(a['ref'])
    for m, x in zip(a['ms'], a['tables']):
        f += [m] + rowsof(x)
    f += [len(a['ranks'])] + list(a['ranks'])
    order = {FULL[m]: float(k) for m, k in zip(a['ms'], a['ranks'])}
    why = ''
    with screen() as (b, saved):
        try:
            b.plot_accuracy(frame(a), sort_by=order if a['ranks'] else None, filename='plot.png')
            ps = panels(saved.last)
            f += [0, int(saved == ['plot.png']), titled(saved.last), len(ps)] + [v for p in ps for v in p]
        except Exception as exc:
            why = repr(exc)[:200]
            f += [2, 0, -1, 0]
    return pack(f), dict(plot='accuracy', methods=[FULL[m] for m in a['ms']], ranks=a['ranks'], instants=len(a['ref']), raised=why)


@contextlib.contextmanager
def figures(figs):
    """the table of times, wherever it is read"""
    d = tempfile.mkdtemp(prefix='vf-plots-')
    name = os.path.join(d, 'exec_time_us.csv')
    pd.DataFrame([dict(n_times=x['times'], n_locs=PLACES[x['place']],
                       algorithm=TIMED[x['m']], us=x['us'] / S) for x in figs]).rename(columns={'us': 't_rel (us)'}).to_csv(name)
    real = pd.read_csv

    def read_csv(path, *a, **k):
        return real(name if os.path.basename(str(path)) == 'exec_time_us.csv' else path, *a, **k)

    pd.read_csv = read_csv
    try:
        yield
    finally:
        pd.read_csv = real
        shutil.rmtree(d, ignore_errors=True)


def cells(fig):
    out = []
    for a in sorted(kept(fig), key=lambda a: a.get_position().x0):
        m = re.search(r'n_locs\W*(\d+x\d+|\d+)$', a.get_title())
        rows = [int(float(t.get_text())) for t in a.get_yticklabels()]
        names = [words(t.get_text()) for t in a.get_xticklabels()]
        cols = [next((k for k, x in enumerate(TIMED) if words(x.replace('_', ' ')) == n), ERR) for n in names]
        tab = {}
        for t in a.texts:
            x, y = t.get_position()
            tab[int(y), int(x)] = fx(float(t.get_text()))
        out.append([PLACES.index(m[1]) if m and m[1] in PLACES else ERR, len(rows), len(cols)] + rows + cols +
                   [tab.get((i, j), NAN) for i in range(len(rows)) for j in range(len(cols))])
    return out


def timed(figs):
    f = [1, len(figs)] + [v for x in figs for v in (x['m'], x['times'], x['place'], x['us'])]
    why = ''
    with screen() as (b, saved), figures(figs):
        try:
            b.plot_exec_time('times.png')
            saved.last.canvas.draw()
            ps = cells(saved.last)
            f += [0, int(saved == ['times.png']), len(ps)] + [v for p in ps for v in p]
        except Exception as exc:
            why = repr(exc)[:200]
            f += [2, 0, 0]
    return pack(f), dict(plot='times', figures=len(figs), raised=why)


def seen(site, seed):
    """a benchmark asked to plot: what it draws, and whether it can keep it"""
    old = tempfile.tempdir, os.environ.get('TMPDIR')
    d = tempfile.mkdtemp(prefix='vf-plots-')
    tempfile.tempdir = os.environ['TMPDIR'] = d
    lat, lon = site['lat6'] / 1e6, site['lon6'] / 1e6
    ls = lines(site, seed)
    text = reply([line(**x) for x in ls])
    p = Packages()
    p.times = [x['t'] for x in ls]
    why, f = '', []
    try:
        install(Net(lambda url: text, 0))
        STANDINS.update(sky=sky, sg2=p.sg2, pvlib=p.pvlib)
        with screen() as (b, saved), contextlib.redirect_stdout(io.StringIO()):
            try:
                b.run_benchmark(site['year'], lat, lon, show_accuracy=True)
                ps = panels(saved.last)
                f = [0, 1, titled(saved.last), len(ps)] + [v for q in ps for v in q]
            except Exception as exc:
                why, f = repr(exc)[:200], [2, 0, -1, 0]
            homeless = [x for x in saved if not os.path.isdir(os.path.dirname(os.path.abspath(x)))]
    finally:
        tempfile.tempdir = old[0]
        os.environ.pop('TMPDIR') if old[1] is None else os.environ.update(TMPDIR=old[1])
        shutil.rmtree(d, ignore_errors=True)
    n = len(ls)
    t = impl.dt([x['t'] for x in ls])
    ours = [m for m in OURS if m.endswith('numexpr')]
    ms = [0, 2, 3, 4] + [FULL.index(f'sunwhere.{m}') for m in ours]

    def turned(az6):
        x = az6 - 180000000
        return (x + 360000000 if x < -180000000 else x) * 10**12

    out = [0, n, len(ms)] + [v for x in ls for v in ((90000000 - x['el']) * 10**12, turned(x['az']), S)]
    for m in ms:
        out.append(m)
        if m < 5:
            a = p.answers.get([0, None, 2, 3, 4][m])
            if a is None or len(a) != n:
                a = [(ERR,) * 3] * n
            for z, az, _ in a:
                if m == 4:
                    z, az = 90 * S - fx(float(np.degrees(z / S))), fx(float(np.degrees(az / S)))
                out += [z, az - 180 * S, S]
        else:
            r = impl.call('sites', t, lat, lon, *FULL[m].split('.')[1].split('_'), False)
            z, az = (impl.read(r, v, (n, 1)).ravel() for v in ('zenith', 'azimuth'))
            for i in range(n):
                out += [fx(z[i]), fx(az[i]), S]
    out += [-1] + f
    info = dict(plot='accuracy of a run', **site, raised=why)
    return [(pack(out), info), (pack([2, 0, 2 if f[0] else int(bool(homeless))]), dict(plot='run_benchmark(..., show_accuracy=True)', saved=homeless))]


def unasked():
    """the plot of the times of the tests, without more ado"""
    why, rc = '', 0
    with screen() as (b, saved):
        try:
            b.plot_exec_time()
        except FileNotFoundError as exc:
            why, rc = str(exc), 1
        except Exception as exc:
            why, rc = repr(exc)[:200], 2
    return pack([2, 1, rc]), dict(plot='plot_exec_time()', raised=why)


def run(ctx):
    per, runs = ctx.n(5, 40), ctx.n(6, 40)
    with ThreadPoolExecutor(8) as ex:
        trs = list(ex.map(lambda s: simulate(ctx.work, 'plots', 'plots', per, ctx.sub(400 + s), invariant='plain', mbt=False), range(8)))
        hist = list(ex.map(lambda s: simulate(ctx.work, 'runs', 'runs', runs, ctx.sub(410 + s), invariant='sane', mbt=False)[1:], range(2)))
    works = [s for tr in trs for s in tr]
    sites = [s['event']['site'] for h in hist for s in h][::2][:runs]
    out = pmap(accuracy, [(w['acc'],) for w in works]) + pmap(timed, [(w['figs'],) for w in works])
    out += [x for p in pmap(seen, [(k, i) for i, k in enumerate(sites)]) for x in p] + pmap(unasked, [()])
    ctx.evaluations, fails = validate(ctx.work, 'conf_plots', [o[0] for o in out], csize=4)
    for o in out:
        ctx.count(o[1]['plot'])
    for w in works:
        for m in w['acc']['ms']:
            ctx.count(FULL[m])
    ctx.traces, ctx.distinct = len(out), {o[0] for o in out}
    ctx.samples = [o[1] for o in out[:40:10]]
    ctx.rule = ('differences and times drawn by spec/plots.qnt are plotted; the panels, labels and curves of the figures (of their densities: mean and deviation) and '
                'the numbers in the cells are held against the specification')
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=f['at'], got=f['got'], want=f['want'])
