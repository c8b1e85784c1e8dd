"""C12: refraction raises the sun slightly, mostly near the horizon, and nothing else."""
import numpy as np

from .. import impl
from ..cases import cases, chunks
from ..par import pmap
from ..quint import fx, pack, validate

FLAGS = [(1, True), (1, 1), (1, np.True_), (1, 'yes'), (1, 2.5), (1, [0]), (0, False), (0, 0), (0, np.False_), (0, None),
         (0, ''), (0, 0.), (1, np.int64(3)), (0, np.int8(0)), (1, np.array([True])[0]), (0, [])]


def one(alg, eng, uc, ch):
    name = impl.ALGS[alg]
    n = len(ch)
    ts = impl.dt([c['t'] for c in ch])
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    sh = dict(sites=(n, n), regular_grid=(n, n, n), transect=(n,))[uc]
    rs = [impl.call(uc, ts, lat, lon, name, eng, f) for f in (False, True)]
    e = [[impl.read(r, v, (n,)) for v in ('ecf', 'eot', 'declination')] for r in rs]
    d = [[impl.read(r, v, sh) for v in ('zenith', 'azimuth')] for r in rs]
    f = [alg, n]
    for k in range(n):
        f += [fx(x[k]) for x in e[0]] + [fx(x[k]) for x in e[1]]
    cells = []
    for k in range(n):
        for j in (k, (k + 1) % n):
            ix = (k,) if uc == 'transect' else (k, j) if uc == 'sites' else (k, j, (j + 2 * (j != k)) % n)
            w = (str(ts[k]), float(lat[ix[1] if len(ix) > 1 else k]), float(lon[ix[-1] if len(ix) > 1 else k]))
            if (ix, w) not in cells:
                cells.append((ix, w))
    # the lower the sun, the earlier
    cells.sort(key=lambda c: -(d[0][0][c[0]] if d[0][0][c[0]] is not None else 0))
    f.append(len(cells))
    for ix, _ in cells:
        f += [fx(d[0][0][ix]), fx(d[1][0][ix]), fx(d[0][1][ix]), fx(d[1][1][ix])]
    flags = []
    if cells:
        ix = cells[0][0]
        for m in range(3):
            t, v = FLAGS[(ch[0]['u'] + 5 * m) % len(FLAGS)]
            r = impl.call(uc, ts, lat, lon, name, eng, v)
            flags += [t, fx(impl.read(r, 'zenith', sh)[ix])]
    f += [len(flags) // 2] + flags
    return pack(f), dict(algorithm=name, engine=eng, usecase=uc), [w for _, w in cells], [str(t) for t in ts]


def run(ctx):
    jobs = []
    for a, name in enumerate(impl.ALGS):
        pool = cases(ctx, a, ctx.n([800, 800, 800, 350][a], [10000, 10000, 10000, 3000][a]), ctx.sub(80 + a)) + cases(ctx, a, ctx.n(80, 1000), ctx.sub(85 + a), step='far')
        for q, ch in enumerate(chunks(pool, (7, 5, 8, 6))):
            for e, eng in enumerate(impl.ENGINES[name]):
                jobs.append((a, eng, impl.UC[(q + e) % 3], ch))
    out = pmap(one, jobs)
    ctx.evaluations, fails = validate(ctx.work, 'conf_refraction', [o[0] for o in out], csize=12)
    ctx.traces = len(out)
    ctx.distinct = {(o[1]['algorithm'], o[1]['engine']) + c for o in out for c in o[2]}
    ctx.samples = [dict(**o[1], cells=o[2][:2]) for o in out[:300:60]]
    ctx.rule = ('cases of spec/gen.qnt, many at elevations around the horizon and the thresholds, with refraction off and on, and '
                'with other truthy and falsy flags')
    for f in fails:
        o = out[f['rec']]
        k = f['at'][0]
        where = o[3][k] if f['clause'][:3] in ('ecf', 'eot', 'dec') else o[2][k] if f['clause'][:5] != 'truth' else 'flag'
        ctx.violation(f['clause'], **o[1], where=where, observed=f['got'] / 1e18, expected=f['want'] / 1e18)
