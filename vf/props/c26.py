"""C26: the algorithms agree with nrel (instants and places of spec/motion.qnt and spec/gen.qnt)."""
import numpy as np

from .. import impl
from ..cases import cases
from ..par import pmap
from ..quint import S, fx, pack, simulate, validate

LO, HI = 1577836800, 2556143999


def one(uc, eng, ch):
    n = len(ch)
    ts = impl.dt([c[0] for c in ch])
    lat = np.array([c[1] for c in ch])
    lon = np.array([c[2] for c in ch])
    sh = dict(sites=(n, n), regular_grid=(n, n, n), transect=(n,))[uc]
    obs = []
    for a in (3, 0, 1, 2):
        r = impl.call(uc, ts, lat, lon, impl.ALGS[a], 'numexpr' if a == 3 else eng, False)
        obs.append(([impl.read(r, v, (n,)) for v in ('ecf', 'eot', 'declination')], [impl.read(r, v, sh) for v in ('zenith', 'azimuth')]))
    f = [n]
    for k in range(n):
        f += [ch[k][0]] + [fx(x[k]) for x in obs[0][0]] + [3]
        for a in (0, 1, 2):
            f += [a] + [fx(x[k]) for x in obs[a + 1][0]]
    cells = [(k,) if uc == 'transect' else (k, j) if uc == 'sites' else (k, j, (j * 2 + 1) % n) for k in range(n)
             for j in ([0] if uc == 'transect' else sorted({k, (k + 1) % n}))]
    f.append(len(cells))
    for ix in cells:
        f += [ch[ix[0]][0]] + [fx(x[ix]) for x in obs[0][1]] + [3]
        for a in (0, 1, 2):
            f += [a] + [fx(x[ix]) for x in obs[a + 1][1]]
    return pack(f), dict(usecase=uc, engine=eng), [(str(ts[i[0]]), *[float(v) for v in (lat[i[1 if len(i) > 1 else 0]], lon[i[-1]])]) for i in cells]


def run(ctx):
    pool = []
    for k in range(4):
        tr = simulate(ctx.work, 'motion', 'motion', ctx.n(600, 3000), ctx.sub(260 + k), step='turn', invariant='agree', mbt=False)[1:]
        pool += [(s['now']['t'], s['lat'] / S, min(s['lon'] / S, 179.99999)) for s in tr if s['alg'] == 3]
    for c in cases(ctx, 0, ctx.n(1500, 20000), ctx.sub(266)):
        t = c['t'] if LO <= c['t'] <= HI else LO + (c['t'] - LO) % (HI - LO)
        pool.append((t, c['lat'], c['lon']))
    jobs, i, k = [], 0, 0
    while i < len(pool):
        n = (5, 8, 3, 1)[k % 4]
        for e, eng in enumerate(('numpy', 'numexpr')):
            jobs.append((impl.UC[(k + e) % 3], eng, pool[i:i + n]))
        i, k = i + n, k + 1
    out = pmap(one, jobs)
    ctx.evaluations, fails = validate(ctx.work, 'conf_agree', [o[0] for o in out], csize=12)
    ctx.traces, ctx.distinct = len(out), {c for o in out for c in o[2]}
    ctx.samples = [dict(**o[1], cells=o[2][:2]) for o in out[:200:50]]
    ctx.rule = ('instants and places between 2020 and 2050, at which the specified algorithms agree as well; each algorithm against nrel '
                'in spec/conf_agree.qnt')
    for f in fails:
        o = out[f['rec']]
        where = o[2][f['at'][2]] if len(f['at']) > 2 else str(impl.dt(f['at'][:1])[0])
        ctx.violation(f['clause'], **o[1], algorithm=impl.ALGS[f['at'][1]], where=where, observed=f['got'] / 1e18, expected=f['want'] / 1e18)
