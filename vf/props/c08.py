"""C08: missing instants and coordinates yield missing results, and only there."""
import numpy as np

from .. import impl
from ..cases import cases, chunks, companies
from ..par import pmap
from ..rel import Rec, decide, ECF, EOT, DEC, COSINE, TIME, ANGLE, IRRAD, EXACT, MISSING
from .c07 import View, shape

VARS = [('ecf', ECF, 'ecf', (), 't'), ('eot', EOT, 'eot', (), 't'), ('declination', DEC, 'declination', (), 't'),
        ('dec', DEC, 'dec', (), 't'),
        ('cosz', COSINE, 'cosz', (), 'tyx'), ('true_solar_time', TIME, 'true_solar_time', (), 'tx'),
        ('sunrise deg', ANGLE, 'sunrise', ('deg',), 'ty'), ('sunset rad', ANGLE, 'sunset', ('rad',), 'ty'),
        ('sunrise tst', TIME, 'sunrise', ('tst',), 'tyx'), ('sunset utc', TIME, 'sunset', ('utc',), 'tyx'),
        ('sunrise local', TIME, 'sunrise', ('local',), 'tyx'),
        ('daylight_length', ANGLE, 'daylight_length', (), 'ty'),
        ('incidence', COSINE, 'incidence', (40., 25.), 'tyx'), ('eth', IRRAD, 'eth', (1361.1, 'none'), 'tyx'),
        ('elevation', ANGLE, 'elevation', (), 'tyx')]
EXTRA = [('zenith', 'zenith', (), 'tyx'), ('azimuth', 'azimuth', (), 'tyx'), ('sza', 'sza', (), 'tyx'),
         ('saa', 'saa', (), 'tyx'), ('airmass', 'airmass', (), 'tyx')]


def run(ctx):
    jobs = []
    for alg, name in enumerate(impl.ALGS):
        cs = cases(ctx, alg, ctx.n(170, 2400), ctx.sub(40 + alg))
        engs = impl.ENGINES[name]
        cos = companies(ctx, alg, ctx.n(16, 250), ctx.sub(740 + alg))
        for q, ch in enumerate(list(chunks(cs, (5, 3, 7, 4, 6, 2))) + cos):
            jobs.append((alg, name, engs[q % len(engs)], ch, q))
        for uc in impl.UC:
            for eng in engs:
                for e in range(8):
                    jobs.append((alg, name, eng, None, (uc, e)))
    recs = pmap(one, jobs)
    for r in recs:
        ctx.count(r.info['missing'])
    ctx.distinct = {str(r.info) for r in recs}
    ctx.rule = ('requests drawn from spec/gen.qnt and spec/company.qnt, with instants, latitudes and longitudes replaced by NaT and NaN at positions '
                'drawn from it too, compared with the same requests without them; plus requests without any valid instant')
    decide(ctx, recs, csize=4)


def nothing(alg, name, eng, uc, e):
    """no instant at all, or no valid one"""
    n = [0, 1, 2, 3, 0, 2, 1, 0][e]
    ts = np.full((n,), np.datetime64('NaT', 's'))
    lat, lon = np.array([10., -95.3 + 20, 89.]), np.array([-3., 100.25, -180.])
    if uc == 'transect':
        lat, lon = lat[:n], lon[:n]
    if e == 5:
        ts = list(ts)
    rf = e % 2 == 1
    rec = Rec(alg, rf, algorithm=name, usecase=uc, engine=eng, refraction=rf, missing=f'all of {n} instants')
    v = View(uc, ts, lat, lon, name, eng, rf)
    for var, acc, args, deps in [(a, c, d, f) for a, _, c, d, f in VARS] + EXTRA:
        sh = shape(uc, deps, n, len(lat), len(lon))
        try:
            a = getattr(v.r, acc)
            got = np.asarray(a(*args) if callable(a) else a).shape
        except Exception:
            got = None
        rec.add(EXACT, [len(sh), None if got is None else len(got)], ('expected', 'observed'), var='rank of ' + var)
        if got is not None and len(got) == len(sh):
            for x, y in zip(sh, got):
                rec.add(EXACT, [x, y], ('expected', 'observed'), var='size of ' + var)
        val = impl.read(v.r, acc, sh, *args).ravel()
        if val.size:
            rec.add(MISSING, [float('nan') if w != w else w for w in val[:12]], var=var)
    return rec


def one(alg, name, eng, ch, q):
    if ch is None:
        return nothing(alg, name, eng, *q)
    n = len(ch)
    u, v = ch[0]['u'], ch[0]['v']
    uc = impl.UC[(q // 2) % 3]
    rf = bool((u // 5) % 2)
    ts = impl.dt([c['t'] for c in ch])
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    tm, ym, xm = ts.copy(), lat.copy(), lon.copy()
    mode = q % 4
    for m in range(n):
        b = (u // 4**m) % 4
        if mode in (0, 2, 3) and (b == 0 or m == v % n):
            tm[m] = np.datetime64('NaT')
        if mode in (1, 2) and ((v // 4**m) % 4 == 0 or m == u % n):
            if (v // 2) % 2:
                ym[m] = np.nan
            else:
                xm[m] = np.nan
        if mode == 3 and b == 1:
            ym[m] = xm[m] = np.nan
    base = View(uc, ts, lat, lon, name, eng, rf)
    holed = View(uc, tm, ym, xm, name, eng, rf)
    rec = Rec(alg, rf, algorithm=name, usecase=uc, engine=eng, refraction=rf, first=str(ts[0]),
              missing=f'{int(np.isnat(tm).sum())} instants, {int(np.isnan(ym).sum())} latitudes, '
                      f'{int(np.isnan(xm).sum())} longitudes of {n}')
    for k in range(n):
        for c in {(k, k, k), (k, (k + 1) % n, (k + 1) % n), (k, (u + k) % n, (v + k) % n)}:
            _, j, i = c
            if uc == 'sites' and j != i or uc == 'transect' and not (j == i == k):
                continue
            no_t, no_y, no_x = np.isnat(tm[k]), np.isnan(ym[j]), np.isnan(xm[i])
            where = dict(time=str(tm[k]), place=(float(ym[j]), float(xm[i])), instead_of=str(ts[k]))
            get = {w: (lambda var, acc, args, deps, vw=vw: vw.get(var, acc, args, deps, *c))
                   for w, vw in (('without', base), ('with', holed))}
            if no_t or no_y or no_x:
                for var, acc, args, deps in [(a, x, d, f) for a, _, x, d, f in VARS] + EXTRA:
                    if no_t or acc in ('zenith', 'azimuth', 'sza', 'saa', 'cosz', 'elevation'):
                        rec.add(MISSING, [get['with'](var, acc, args, deps)], var=var, **where)
                if not no_t:
                    for var, kind, acc, args, deps in VARS[:3]:
                        rec.add(kind, [get[w](var, acc, args, deps) for w in ('without', 'with')], var=var, **where)
            else:
                rec.dir([(get[w]('zenith', 'zenith', (), 'tyx'), get[w]('azimuth', 'azimuth', (), 'tyx'))
                         for w in ('without', 'with')], ('without', 'with'), **where)
                for var, kind, acc, args, deps in VARS:
                    rec.add(kind, [get[w](var, acc, args, deps) for w in ('without', 'with')], ('without', 'with'),
                            var=var, **where)
    return rec
