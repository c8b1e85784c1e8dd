"""C11: every valid request gives finite angles in their documented ranges."""
import numpy as np

from .. import impl
from ..cases import cases, chunks
from ..par import pmap
from ..quint import fx, pack, validate


def one(name, eng, uc, rf, ch):
    n = len(ch)
    ts = impl.dt([c['t'] for c in ch])
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    sh = dict(sites=(n, n), regular_grid=(n, n, n), transect=(n,))[uc]
    r = impl.call(uc, ts, lat, lon, name, eng, rf)
    e = [impl.read(r, v, (n,)) for v in ('ecf', 'eot', 'declination')]
    d = [impl.read(r, v, sh) for v in ('zenith', 'elevation', 'azimuth', 'cosz')]
    f = [n] + [fx(x[k]) for k in range(n) for x in e]
    cells = []
    for k in range(n):
        for o in ((0, 0), (1, 1), (3, 2)):
            j, i = (k + o[0]) % n, (k + o[1]) % n
            if uc == 'transect':
                ix, j, i = (k,), k, k
            elif uc == 'sites':
                ix, i = (k, j), j
            else:
                ix = (k, j, i)
            if (ix, j, i) not in cells:
                cells.append((ix, j, i))
    f.append(len(cells))
    for ix, j, i in cells:
        f += [fx(x[ix]) for x in d]
    meta = dict(algorithm=name, engine=eng, usecase=uc, refraction=rf)
    return pack(f), meta, [(str(ts[ix[0]]), float(lat[j]), float(lon[i])) for ix, j, i in cells], [str(t) for t in ts]


def run(ctx):
    aimed = {a: cases(ctx, a, ctx.n([700, 500, 500, 180][a], [12000, 8000, 8000, 2400][a]), ctx.sub(70 + a)) for a in range(4)}
    jobs = []
    for a, name in enumerate(impl.ALGS):
        pool = aimed[a] + (aimed[0] if a == 3 else [])
        for q, ch in enumerate(chunks(pool, (7, 5, 8, 1, 6))):
            for e, eng in enumerate(impl.ENGINES[name]):
                for rf in (False, True):
                    jobs.append((name, eng, impl.UC[(q + e + rf) % 3], rf, ch))
    out = pmap(one, jobs)
    ctx.evaluations, fails = validate(ctx.work, 'conf_range', [o[0] for o in out], csize=20)
    ctx.traces = len(out)
    ctx.distinct = {c for o in out for c in o[2]}
    ctx.samples = [dict(**o[1], cells=o[2][:2]) for o in out[:300:60]]
    ctx.rule = ('cases of spec/gen.qnt, in particular with the sun at, or within 1e-9 to 0.1 degrees of, the zenith and the nadir, '
                'at the poles and the date line, through every engine, flag and use case')
    for f in fails:
        o = out[f['rec']]
        k = f['at'][0]
        where = o[3][k] if f['clause'] in ('ecf', 'eot', 'declination') else o[2][k]
        ctx.violation(f['clause'], **o[1], where=where, observed=f['got'] / 1e18)
