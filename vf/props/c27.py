"""C27: the sun moves continuously (walks of spec/motion.qnt)."""
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from .. import impl
from ..par import pmap
from ..quint import S, fx, pack, simulate, validate


def one(alg, eng, uc, split, refr, ts, places, fine=0, fracs=None):
    name = impl.ALGS[alg]
    lat = np.array([p[0] for p in places])
    lon = np.array([p[1] for p in places])
    m = len(places)
    at_ns = impl.dt(ts) if not fine else (np.array([t * 10**9 + f for t, f in zip(ts, fracs)])).astype('datetime64[ns]')
    groups = [at_ns[k:k + 1] for k in range(len(ts))] if split else [at_ns]
    eph, dirs = [], []
    for g in groups:
        n = len(g)
        if uc == 'transect':
            r = [impl.call(uc, g, np.full(n, y), np.full(n, x), name, eng, refr) for y, x in zip(lat, lon)]
            d = [[impl.read(q, v, (n,)) for q in r] for v in ('zenith', 'azimuth')]
            r = r[0]
            at = lambda v, k, j: d[v][j][k]  # noqa: E731
        else:
            r = impl.call(uc, g, lat, lon, name, eng, refr)
            sh = (n, m) if uc == 'sites' else (n, m, m)
            d = [impl.read(r, v, sh) for v in ('zenith', 'azimuth')]
            at = lambda v, k, j: d[v][(k, j) if uc == 'sites' else (k, j, j)]  # noqa: E731
        e = [impl.read(r, v, (n,)) for v in ('ecf', 'eot', 'declination')]
        eph += [[x[k] for x in e] for k in range(n)]
        dirs += [[(at(0, k, j), at(1, k, j)) for j in range(m)] for k in range(n)]
    f = [alg, fine, len(ts)]
    for t, e in zip(ts, eph):
        f += [t] + [fx(x) for x in e]
    f.append(m)
    for j in range(m):
        for d in dirs:
            f += [fx(d[j][0]), fx(d[j][1])]
    return pack(f), dict(algorithm=name, engine=eng, usecase=uc, one_by_one=split, first=str(at_ns[0]), places=places)


def walks(ctx, n, k):
    per = 120
    with ThreadPoolExecutor(8) as ex:
        for tr in ex.map(lambda s: simulate(ctx.work, 'motion', 'motion', 5 * per, ctx.sub(k + s), invariant='continuous', mbt=False)[1:],
                         range((n + per - 1) // per)):
            w = []
            for s in tr:
                if s['age'] == 0 and w:
                    yield w
                    w = []
                w.append((s['alg'], s['now']['t'], s['lat'] / S, min(s['lon'] / S, 179.99999), s['fine'], s['frac']))
            if len(w) > 1:
                yield w


def run(ctx):
    ws = list(walks(ctx, ctx.n(1800, 24000), 270))
    byalg = [[w for w in ws if w[0][0] == a] for a in range(4)]
    jobs = []
    for a, group in enumerate(byalg):
        for i, w in enumerate(group):
            places = [group[(i + j) % len(group)][0][2:4] for j in range(1 + i % 3)]
            for e, eng in enumerate(impl.ENGINES[impl.ALGS[a]]):
                jobs.append((a, eng, impl.UC[(i + e) % 3], i % 4 == 3, False, [x[1] for x in w], places, w[0][4], [x[5] for x in w]))
    out = pmap(one, jobs)
    for j in jobs:
        ctx.count(f'{impl.ALGS[j[0]]} {j[1]} {j[2]}')
    ctx.evaluations, fails = validate(ctx.work, 'conf_motion', [o[0] for o in out], csize=12)
    ctx.traces, ctx.distinct = len(out), {str(o[1]) for o in out}
    ctx.samples = [o[1] for o in out[:200:50]]
    ctx.rule = ('walks of spec/motion.qnt around the ends of days, months, February and years, 1 s to 1 h per step, on which the '
                'specification satisfies the law too; successive observations compared in spec/conf_motion.qnt')
    for f in fails:
        t = [str(x) for x in impl.dt(f['at'][:2])]
        ctx.violation(f['clause'], **out[f['rec']][1], between=t, at=f['at'][2:], observed=f['got'] / 1e18, bound=f['want'] / 1e18)
