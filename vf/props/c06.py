"""C06: the numpy and numexpr engines agree."""
import numpy as np

from .. import impl
from ..cases import cases, chunks, companies
from ..par import pmap
from ..rel import Rec, decide, ECF, EOT, DEC


def run(ctx):
    jobs = []
    for alg, name in enumerate(impl.ALGS):
        if len(impl.ENGINES[name]) < 2:
            continue
        cs = cases(ctx, alg, ctx.n(640, 12000), ctx.sub(20 + alg)) + cases(ctx, alg, ctx.n(100, 2000), ctx.sub(25 + alg), step='far')
        cos = companies(ctx, alg, ctx.n(50, 1500), ctx.sub(720 + alg))
        for q, ch in enumerate(list(chunks(cs, (7, 5, 1, 9, 4, 12))) + cos):
            for rf in (0, 1):
                jobs.append((alg, name, ch, q, rf))
    recs = pmap(one, jobs)
    ctx.distinct = {(r.info['algorithm'], r.info['usecase'], r.info['refraction'], r.info['first']) for r in recs}
    ctx.rule = 'requests drawn from spec/gen.qnt and spec/company.qnt, each made to both engines, through the three use cases in turn'
    decide(ctx, recs)


def one(alg, name, ch, q, rf):
    n = len(ch)
    uc = impl.UC[(q + rf) % 3]
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    ts = impl.moments([c['t'] for c in ch], ch[0]['u'], ch[0]['v'])
    sh = dict(sites=(n, n), regular_grid=(n, n, n), transect=(n,))[uc]
    rs = [impl.call(uc, ts, lat, lon, name, e, bool(rf)) for e in ('numpy', 'numexpr')]
    rec = Rec(alg, rf, algorithm=name, usecase=uc, refraction=bool(rf), first=str(ts[0]))
    z = [impl.read(r, 'zenith', sh) for r in rs]
    a = [impl.read(r, 'azimuth', sh) for r in rs]
    who = ('numpy', 'numexpr')
    for v, kind in (('ecf', ECF), ('eot', EOT), ('declination', DEC)):
        x = [impl.read(r, v, (n,)) for r in rs]
        for k in range(n):
            rec.add(kind, [x[0][k], x[1][k]], who, var=v, time=str(ts[k]))
    for k, c in enumerate(ch):
        cells = {(k, k), (k, (k + 1 + c['u']) % n)} if uc == 'sites' else {(k,)} if uc == 'transect' else {
            (k, k, k), (k, c['u'] % n, c['v'] % n)}
        if uc == 'sites':
            cells = {(k, k), (k, (k + 1 + c['u']) % n)}
        for ix in sorted(cells):
            la, lo = lat[ix[1] if len(ix) > 1 else k], lon[ix[-1]]
            rec.dir([(z[0][ix], a[0][ix]), (z[1][ix], a[1][ix])], who, time=str(ts[k]), place=(float(la), float(lo)))
    return rec
