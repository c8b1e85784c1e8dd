"""C28: the sun is on the horizon at its sunrise and at its sunset (days of spec/horizon.qnt)."""
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from .. import impl
from ..cases import chunks
from ..par import pmap
from ..quint import NAN, S, fx, isnum, pack, simulate, validate
from .derived import Result


def one(alg, eng, uc, refr, later, ch):
    name = impl.ALGS[alg]
    ts = impl.dt([c['t'] for c in ch])
    lat = np.array([c['lat'] / S for c in ch])
    lon = np.array([min(c['lon'] / S, 179.9999999) for c in ch])
    R = Result(uc, ts, lat, lon, name, eng, refr)
    cells = R.cells(ch[0]['t'] % 7)
    ev = [[R.clock(c, 'tyx', a, 'utc') for a in ('sunrise', 'sunset')] for c in cells]
    # the sun at those times, asked for together
    ask = sorted({(e // 10**9 + d, c[1], c[2]) for c, es in zip(cells, ev) for e in es if isnum(e) for d in (0, 600)})
    el = {}
    if ask:
        tt, yy, xx = impl.dt([q[0] for q in ask]), np.array([lat[q[1]] for q in ask]), np.array([lon[q[2]] for q in ask])
        n = len(ask)
        if later == 'transect':
            z = impl.read(impl.call('transect', tt, yy, xx, name, eng, False), 'elevation', (n,))
        elif later == 'sites':
            z = impl.read(impl.call('sites', tt, lat, lon, name, eng, False), 'elevation', (n, len(ch)))
            z = [z[k][q[1]] if q[1] == q[2] else
                 impl.read(impl.call('sites', tt[k:k + 1], yy[k], xx[k], name, eng, False), 'elevation', (1, 1))[0][0]
                 for k, q in enumerate(ask)]
        else:
            z = impl.read(impl.call('regular_grid', tt, lat, lon, name, eng, False), 'elevation', (n, len(ch), len(ch)))
            z = [z[k][q[1]][q[2]] for k, q in enumerate(ask)]
        el = dict(zip(ask, z))
    f = [alg, len(cells)]
    for c, es in zip(cells, ev):
        f += [ch[c[0]]['t'], fx(lat[c[1]]), R.num(c, 't', 'declination')]
        for e in es:
            s = e // 10**9 if isnum(e) else e
            f += [s] + ([fx(el[(s + d, c[1], c[2])]) for d in (0, 600)] if isnum(e) else [NAN, NAN])
    info = dict(algorithm=name, engine=eng, usecase=uc, refraction=refr, then=later)
    return pack(f), info, [(str(ts[c[0]]), lat[c[1]], lon[c[2]]) for c in cells]


def run(ctx):
    per = 200
    n = ctx.n(1600, 24000)
    with ThreadPoolExecutor(8) as ex:
        days = [s['day'] for tr in ex.map(lambda s: simulate(ctx.work, 'horizon', 'horizon', per, ctx.sub(280 + s), invariant='rises',
                                                             mbt=False)[1:], range(n // per)) for s in tr]
    jobs = []
    for a, name in enumerate(impl.ALGS):
        for q, ch in enumerate(chunks([d for d in days if d['alg'] == a], (5, 4, 6, 1, 3))):
            engs = impl.ENGINES[name]
            jobs.append((a, engs[q // 3 % len(engs)], impl.UC[q % 3], bool(q // 2 % 2), impl.UC[(q // 3 + q) % 3], ch))
    out = pmap(one, jobs)
    for d in days:
        ctx.count(['rises and sets', 'polar day or night', 'at the polar circle'][d['polar']])
    for o in out:
        ctx.count(f"{o[1]['usecase']} then {o[1]['then']}")
    ctx.evaluations, fails = validate(ctx.work, 'conf_horizon', [o[0] for o in out], csize=8)
    ctx.traces = len(out)
    ctx.distinct = {(o[1]['algorithm'], o[1]['usecase']) + w for o in out for w in o[2]}
    ctx.samples = [dict(**o[1], cells=o[2][:2]) for o in out[:300:60]]
    ctx.rule = ('days of spec/horizon.qnt, on each of which the specified sun is on the horizon at the times that the sunrise '
                'equation gives; the library is asked when the sun rises and sets, then where it is at those times and ten '
                'minutes later, and spec/conf_horizon.qnt judges both answers together')
    for f in fails:
        o = out[f['rec']]
        k = f['at'][0]
        ctx.violation(f['clause'], **o[1], where=o[2][k] if k < len(o[2]) else f['at'], event=['sunrise', 'sunset'][f['at'][1] % 2],
                      got=f['got'], want=f['want'])
