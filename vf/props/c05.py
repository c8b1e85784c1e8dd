"""C05: sites, regular_grid and transect agree cell by cell."""
import numpy as np

from .. import impl
from ..cases import cases, chunks, companies
from ..par import pmap
from ..rel import Rec, decide, ECF, EOT, DEC


def run(ctx):
    jobs = []
    for alg, name in enumerate(impl.ALGS):
        cs = cases(ctx, alg, ctx.n([360, 360, 360, 240][alg], [6000, 6000, 6000, 3000][alg]), ctx.sub(10 + alg)) + cases(ctx, alg, ctx.n(40, 600), ctx.sub(15 + alg), step='far')
        cos = companies(ctx, alg, ctx.n([40, 40, 40, 16][alg], [800, 800, 800, 300][alg]), ctx.sub(710 + alg))
        for q, ch in enumerate(list(chunks(cs, (3, 5, 2, 4, 1, 6))) + [c[:6] for c in cos]):
            jobs.append((alg, name, ch, q))
    recs = [r for rs in pmap(one, jobs) for r in rs]
    ctx.distinct = {(r.info['algorithm'], r.info['engine'], r.info['refraction'], r.info['first']) for r in recs}
    ctx.rule = ('requests of T instants, J latitudes and I longitudes drawn from spec/gen.qnt and spec/company.qnt; every (instant, latitude, '
                'longitude) triple of a sample is read from a regular_grid, a sites and a transect request')
    decide(ctx, recs)


def one(alg, name, ch, q):
    c0 = ch[0]
    n = len(ch)
    nl, nm = max(1, n - c0['u'] % 3), max(1, n - c0['v'] % 3)
    lat = np.array([c['lat'] for c in ch][:nl])
    lon = np.array([c['lon'] for c in ch][-nm:])
    ts = impl.moments([c['t'] for c in ch], c0['u'], c0['v'])
    out = []
    for eng in impl.ENGINES[name]:
        rf = (c0['u'] // 7 + q + (eng == 'numpy')) % 2
        la, lo = [x.ravel() for x in np.meshgrid(lat, lon, indexing='ij')]
        tt, tla, tlo = np.repeat(ts, la.size), np.tile(la, n), np.tile(lo, n)
        g = impl.call('regular_grid', ts, lat, lon, name, eng, bool(rf))
        s = impl.call('sites', ts, la, lo, name, eng, bool(rf))
        t = impl.call('transect', tt, tla, tlo, name, eng, bool(rf))
        sh = [(n, nl, nm), (n, nl * nm), (n * nl * nm,)]
        z = [impl.read(r, 'zenith', h) for r, h in zip((g, s, t), sh)]
        a = [impl.read(r, 'azimuth', h) for r, h in zip((g, s, t), sh)]
        tim = {v: [impl.read(r, v, (m,)) for r, m in ((g, n), (s, n), (t, tt.size))]
               for v in ('ecf', 'eot', 'declination')}
        who = ('regular_grid', 'sites', 'transect')
        rec = Rec(alg, rf, algorithm=name, engine=eng, refraction=bool(rf), first=str(ts[0]))
        for k in range(n):
            for v, kind in (('ecf', ECF), ('eot', EOT), ('declination', DEC)):
                m = k * la.size + c0['u'] % la.size
                rec.add(kind, [tim[v][0][k], tim[v][1][k], tim[v][2][m]], who, var=v, time=str(ts[k]))
            picks = {(k % nl, k % nm), (c0['u'] % nl, c0['v'] % nm), ((k + 1) % nl, (2 * k) % nm)}
            for i, j in sorted(picks):
                x = i * nm + j
                rec.dir([(z[0][k, i, j], a[0][k, i, j]), (z[1][k, x], a[1][k, x]),
                         (z[2][k * la.size + x], a[2][k * la.size + x])], who,
                        time=str(ts[k]), place=(float(lat[i]), float(lon[j])))
        out.append(rec)
    return out
