"""C31: what a solar chart shows (charts of spec/chart.qnt)."""
import os
import re
import shutil
import tempfile
import time
import zoneinfo
from concurrent.futures import ThreadPoolExecutor
from datetime import datetime

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import ERR, NAN, fx, pack, simulate, validate
from .c24 import ABBR, ZN, idx, tzif

NAMES = {'s': 0, 'south': 0, 'w': 1, 'west': 1, 'n': 2, 'north': 2, 'e': 3, 'east': 3}


def draw(q, save):
    os.environ['MPLBACKEND'] = 'Agg'
    import logging
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    import matplotlib
    matplotlib.use('Agg')
    import pylab as pl
    from sunwhere._cli import solar_chart as sc
    pl.close('all')
    lat, lon, zone = q['lat4'] / 1e4, q['lon4'] / 1e4, ZN[q['zone']]
    when = None
    if q['user']:
        d = np.datetime64(q['w'], 's').item()
        k = q['t'] // 7 % 3
        when = d if k == 0 else pd.Timestamp(d) if k == 1 else d.strftime('%Y-%m-%d %H:%M:%S')
    saved = -1
    if q['day'] == q['month'] == q['minute'] == 0 and q['hour'] < 0:
        a = (lat, lon) if when is None and save else (lat, lon, when)
        if save:
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, 'chart.png')
                sc.make_solar_chart(*a, timezone=zone, polar=bool(q['polar']), filename=f)
                with open(f, 'rb') as fi:
                    saved = int(fi.read(8) == b'\x89PNG\r\n\x1a\n')
        else:
            sc.make_solar_chart(*a, timezone=zone, polar=bool(q['polar']))
    else:
        c = sc.SolarChart(lat, lon, when, zone, bool(q['polar']))
        c.draw_solar_grid(days=[q['day']] if q['day'] else None, months=[q['month']] if q['month'] else None,
                          hours=[q['hour']] if q['hour'] >= 0 else None, minutes=[q['minute']] if q['minute'] else None)
        if when is not None:
            c.draw_solar_path(when)
    return pl.gcf(), saved


def number(s):
    m = re.search(r'[-\u2212]?\d+(?:\.\d+)?', s)
    return float(m[0].replace('\u2212', '-')) if m else float('nan')


def observe(q, samples, save):
    try:
        fig, saved = draw(q, save)
    except Exception as exc:
        return [0, -1], repr(exc)
    ax = fig.axes[0]
    polar = ax.name == 'polar'
    degrees = np.degrees if polar else (lambda x: x)
    f = [1, saved, len(samples)] + samples + [len(ax.lines)]
    for ln in ax.lines:
        x, y = (np.asarray(v, dtype=float) for v in ln.get_data())
        f.append(len(x))
        for s in samples:
            k = -1 if s < 0 else s % max(1, len(x))
            f += [fx(degrees(x[k])), fx(y[k])] if len(x) else [ERR, ERR]
    hours, days, points, head = [], [], [], dict(lat=ERR, lon=ERR, abbr=-1, zone=-1, user=NAN)
    for t in ax.texts:
        s = t.get_text()
        x, y = t.get_position()
        if t.get_transform() == ax.transAxes:
            if s.lower() in NAMES:
                p = ax.transData.inverted().transform(ax.transAxes.transform((x, y)))
                if polar:       # the direction from the centre, and not from behind it
                    c = ax.transAxes.transform((.5, .5))
                    d = ax.transAxes.transform((x, y)) - c
                    p = ax.transData.inverted().transform(c + .2 * d)
                points.append([NAMES[s.lower()], fx(degrees(p[0]))])
            elif s.startswith('Latitude'):
                head['lat'] = int(round(number(s) * 100))
            elif s.startswith('Longitude'):
                head['lon'] = int(round(number(s) * 100))
            elif s.startswith('User path: '):
                try:
                    head['user'] = int(pd.Timestamp(s[len('User path: '):]).timestamp())
                except Exception:
                    head['user'] = ERR
            elif ': ' in s:
                a, z = s.split(': ', 1)
                head['abbr'] = idx(ABBR, a)
                head['zone'] = idx(ZN, 'UTC' if z == 'Universal Coordinated Time' else z)
            continue
        at = [fx(degrees(np.asarray(x, dtype=float).ravel()[0])), fx(np.asarray(y, dtype=float).ravel()[0])]
        if m := re.fullmatch(r'(\d\d)/(\d\d)', s):
            days.append([int(m[1]), int(m[2])] + at)
        elif m := re.fullmatch(r'(\d{1,2})(?::(\d\d))? \S+', s):
            hours.append([int(m[1]), int(m[2] or 0)] + at)
    ticks = []
    for a, axis in ((0, ax.xaxis), (1, ax.yaxis)):
        for loc, lab in zip(axis.get_majorticklocs(), axis.get_majorticklabels()):
            if lab.get_text():
                ticks.append([a, fx(number(lab.get_text())), fx(degrees(loc) if a == 0 else float(loc))])
    for group in (hours, days, points, ticks):
        f.append(len(group))
        for g in group:
            f += g
    f += [head[k] for k in ('lat', 'lon', 'abbr', 'zone', 'user')]
    # the border of what is filled, at some of its points
    edge = [p for c in ax.collections for path in c.get_paths() for p in np.asarray(path.vertices, dtype=float)]
    if edge:                    # and where the sun is highest
        top = max(edge, key=lambda p: p[1])
        edge = [p for p in edge if p[0] == top[0]][:6] + [edge[k] for k in sorted({(7 * k + 31 * s) % len(edge) for k in range(8) for s in samples[2:]})]
    f.append(len(edge))
    for x, y in edge:
        f += [fx(float(degrees(x))), fx(float(y))]
    import pylab as pl
    pl.close('all')
    return f, f'{len(ax.lines)} lines, {len(hours)} hours, {len(days)} days'


def one(q, samples, save):
    impl.sunwhere()
    f, note = observe(q, samples, save)
    g = [q[k] for k in ('zone', 't', 'lat4', 'lon4', 'polar', 'user', 'day', 'month', 'hour', 'minute')]
    return pack(g + f), dict(latitude=q['lat4'] / 1e4, longitude=q['lon4'] / 1e4, zone=ZN[q['zone']], polar=bool(q['polar']),
                             user=str(np.datetime64(q['w'], 's')) if q['user'] else None,
                             asked={k: q[k] for k in ('day', 'month', 'hour', 'minute')}), note


def now_in(situation):
    """a chart of now, of a zone whose clocks have just changed: what the clock of this machine shows is there twice, or never"""
    d = tempfile.mkdtemp(prefix='vf-zones-')
    old = zoneinfo.TZPATH
    t = int(time.time())
    here = int(datetime.now().astimezone().utcoffset().total_seconds())
    name = ('Changed/Back', 'Changed/Forth')[situation]
    try:
        os.mkdir(os.path.join(d, 'Changed'))
        tzif(os.path.join(d, name), t - 1200, *((here + 3600, here), (here, here + 3600))[situation])
        zoneinfo.reset_tzpath(to=[d, *old])
        impl.sunwhere()
        os.environ['MPLBACKEND'] = 'Agg'
        import matplotlib
        matplotlib.use('Agg')
        import pylab as pl
        from sunwhere._cli import solar_chart as sc
        try:
            sc.make_solar_chart(40., -3.5, timezone=name, polar=bool(situation))
            ax = pl.gcf().axes[0]
            said = [x.get_text() for x in ax.texts if x.get_text().endswith(': ' + name)]
            f, note = [1, len(ax.lines), idx(['XST', 'XWT'], said[0].split(': ')[0]) if said else -1], str(said)
        except Exception as exc:
            f, note = [0, -1, -1], repr(exc)
        pl.close('all')
    finally:
        zoneinfo.reset_tzpath(to=old)
        shutil.rmtree(d, ignore_errors=True)
    return pack([99, situation] + f), dict(zone=name, machine=here), note


def run(ctx):
    per = ctx.n(8, 60)
    with ThreadPoolExecutor(8) as ex:
        trs = ex.map(lambda s: simulate(ctx.work, 'chart', 'chart', per, ctx.sub(310 + s), init='initChart', step='order',
                                        invariant='drawn')[1:], range(8))
        sts = [s for tr in trs for s in tr]
    jobs = []
    for i, s in enumerate(sts):
        q = dict(s['q'])
        if not q['user']:       # a chart of now
            q['t'] = int(time.time())
        q['w'] = s['w']
        # points: the ends, about the day of the year and the time of the user, and anywhere
        day = (q['t'] // 86400 - 10957) * 4 % 1461 // 4
        smp = [0, -1, day, max(0, day - 1), (q['w'] % 86400) // 300, 17 * i + q['t'] % 1009] + [31 * i + 97 * k for k in range(ctx.n(0, 8))]
        jobs.append((q, smp, i % 9 == 0))
        ctx.count('polar' if q['polar'] else 'rectilinear')
        ctx.count('with the time of a user' if q['user'] else 'of now')
    out = pmap(one, jobs) + pmap(now_in, [(0,), (1,)])
    ctx.evaluations, fails = validate(ctx.work, 'conf_chart', [o[0] for o in out], csize=1)
    ctx.traces, ctx.distinct = len(out), {str(o[1]) for o in out}
    ctx.samples = [dict(**o[1], drawn=o[2]) for o in out[:5]]
    ctx.rule = ('charts of spec/chart.qnt are drawn; every line of the specification has to be among the lines of the figure, and none '
                'besides (points compared: the ends, about the day and time of the user, others); labels, compass, ticks and headings likewise')
    for f in fails:
        o = out[f['rec']]
        ctx.violation(f['clause'], **o[1], drawn=o[2], at=f['at'], got=f['got'], want=f['want'])
