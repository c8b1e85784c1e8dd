"""C15-C20: derived variables (spec/conf_derived.qnt)"""
import zoneinfo

import numpy as np
import pandas as pd

from .. import impl
from ..access import AM, CORR
from ..cases import cases, chunks, companies
from ..par import pmap
from ..quint import ERR, fx, pack, simulate, validate
from ..rel import raw
from .c09 import ZONES, eras, fixed

DEPS = {'t': 't', 'lat': 'y', 'lon': 'x'}


def shape(uc, deps, n):
    if uc == 'transect':
        return (n,)
    if uc == 'regular_grid':
        return (n,) * (('t' in deps) + ('y' in deps) + ('x' in deps))
    return (n,) * (('t' in deps) + ('y' in deps or 'x' in deps))


def at(uc, deps, cell):
    k, j, i = cell
    if uc == 'transect':
        return (k,)
    if uc == 'regular_grid':
        return ((k,) if 't' in deps else ()) + ((j,) if 'y' in deps else ()) + ((i,) if 'x' in deps else ())
    return ((k,) if 't' in deps else ()) + ((j,) if 'y' in deps or 'x' in deps else ())


class Result:
    """cells of a square request of n instants, latitudes and longitudes"""

    def __init__(self, uc, ts, lat, lon, *a):
        self.uc, self.n, self.lat, self.lon = uc, len(lat), lat, lon
        self.r = impl.call(uc, ts, lat, lon, *a)
        self.c = {}

    def get(self, cell, deps, name, *args):
        key = (name, args)
        if key not in self.c:
            self.c[key] = impl.read(self.r, name, shape(self.uc, deps, self.n), *args)
        return self.c[key][at(self.uc, deps, cell)]

    def num(self, *a):
        return fx(self.get(*a))

    def clock(self, *a):
        return raw(self.get(*a))

    def cells(self, u, extra=1):
        n = self.n
        out = [(k, k, k) for k in range(n)]
        if self.uc != 'transect':
            for e in range(extra):
                out += [(k, (k + 1 + e) % n, (k + 1 + e) % n if self.uc == 'sites' else (k + u + e) % n) for k in range(n)]
        return out


def rec15(R, cells, utc, u):
    f = [len(cells)]
    for c in cells:
        f += [utc[c[0]], fx(R.lon[c[2]]), R.num(c, 't', 'eot'), R.clock(c, 'tx', 'true_solar_time'), fx(R.lat[c[1]]),
              R.num(c, 't', 'declination'), R.num(c, 'tyx', 'azimuth'), R.num(c, 'tyx', 'zenith')]
    return f


def rec16(R, cells, utc, u):
    f = [len(cells)]
    for c in cells:
        f += [fx(R.lat[c[1]]), R.num(c, 't', 'declination')]
        f += [R.num(c, 'ty', a, x) for a in ('sunrise', 'sunset') for x in ('deg', 'rad')]
        f += [R.num(c, 'ty', 'daylight_length'), R.clock(c, 'tx', 'true_solar_time'),
              R.clock(c, 'tyx', 'sunrise', 'tst'), R.clock(c, 'tyx', 'sunset', 'tst')]
    bad = ['hours', '', 'UTC', 'degrees', None]
    bad = [bad[u % 5], bad[(u + 1 + u // 5 % 4) % 5]]
    return f + [4] + [outcome(lambda b=b, a=a: getattr(R.r, a)(b)) for b in bad for a in ('sunrise', 'sunset')]


def rec17(R, cells, utc, u, zone=0):
    f = [zone, len(cells)]
    for c in cells:
        f += [utc[c[0]], fx(R.lat[c[1]]), fx(R.lon[c[2]]), R.num(c, 't', 'declination'), R.num(c, 't', 'eot'),
              R.clock(c, 'tx', 'true_solar_time')]
        f += [R.clock(c, 'tyx', a, x) for a in ('sunrise', 'sunset') for x in ('tst', 'utc', 'local')]
    return f


SLOPES = [0., 30., 90., 45., 180., 60., 7.5, 135., 89.99, 0., 20., 90.]
ORIENT = [0., 90., -90., 45., 180., -135., 12.5, 270., -180., 359., -45., -1e-3]


def rec18(R, cells, utc, u):
    f = [len(cells)]
    surf = [(SLOPES[(u + j) % 12], ORIENT[(u // 12 + 5 * j) % 12]) for j in range(3)]
    surf += [(180. - surf[1][0], surf[1][1] + 180.), (0., ORIENT[u % 12])]
    for c in cells:
        f += [fx(R.lat[c[1]]), R.num(c, 't', 'declination'), R.clock(c, 'tx', 'true_solar_time'), R.num(c, 'tyx', 'zenith'),
              len(surf)]
        for s in surf:
            f += [fx(s[0]), fx(s[1]), R.num(c, 'tyx', 'incidence', *s)]
    return f


def outcome(fn):
    try:
        fn()
        return 0
    except ValueError:
        return 1
    except Exception:
        return 2


def rec19(R, cells, utc, u):
    cells = sorted(cells, key=lambda c: R.get(c, 'tyx', 'zenith') if R.get(c, 'tyx', 'zenith') is not None else 0)
    f = [len(cells)]
    for c in cells:
        f.append(R.num(c, 'tyx', 'zenith'))
        f += [R.num(c, 'tyx', 'airmass', a) for a in AM]
    bad = [('gueymard',), ('',), ('Kasten_1965',)]
    f += [len(bad)] + [outcome(lambda b=b: R.r.airmass(*b)) for b in bad]
    return f


def rec20(R, cells, utc, u):
    f = [len(cells)]
    isc = [1361.1, 1367., 1360.8, 1, 100., 2000., 0, 1361, 0., np.float64(1366.1), np.int64(1353)][u % 11]
    for c in cells:
        f += [fx(float(isc)), R.num(c, 't', 'ecf'), R.num(c, 'tyx', 'zenith')] + [R.num(c, 'tyx', 'eth', isc, x) for x in CORR]
    bad = [(1361.1, 'perez'), (1361.1, ''), (1., 'None')]
    f += [len(bad)] + [outcome(lambda b=b: R.r.eth(*b)) for b in bad]
    return f


RECS = {15: rec15, 16: rec16, 17: rec17, 18: rec18, 19: rec19, 20: rec20}
TZS = [None, 'UTC', 'Asia/Kathmandu', 'America/St_Johns', 'Pacific/Kiritimati', 'Europe/Madrid']


def one(prop, alg, eng, uc, rf, ch, tz, zone=None):
    name = impl.ALGS[alg]
    u = ch[0]['u']
    sub = [(c['u'] // 13 % 10**9 if prop == 15 and c['v'] % 3 == 0 else c.get('sub', 0) * 1000) for c in ch]
    utc = [c['t'] * 10**9 + s for c, s in zip(ch, sub)]
    ts = pd.to_datetime(np.array(utc, dtype='int64').astype('datetime64[ns]'))
    if zone is not None:
        z = ZONES[zone]
        tz = fixed(z) if isinstance(z, int) else zoneinfo.ZoneInfo(z)
    ts = ts.values if tz is None else ts.tz_localize('UTC').tz_convert(tz)
    lat = np.array([float(c['lat']) for c in ch])
    lon = np.array([float(c['lon']) for c in ch])
    R = Result(uc, ts, lat, lon, name, eng, rf)
    cells = R.cells(u)
    if prop == 17:
        f = rec17(R, cells, utc, u, 0 if zone is None else zone)
    else:
        f = RECS[prop](R, cells, utc, u)
    info = dict(algorithm=name, engine=eng, usecase=uc, refraction=rf, timezone=str(tz))
    if isinstance(R.r, impl.Crash):
        info['raised'] = repr(R.r.exc)
    return pack(f), info, [(str(np.datetime64(utc[c[0]], 'ns')), lat[c[1]], lon[c[2]]) for c in cells]


def zone_cases(ctx, n, k):
    out = []
    for s in range(4):
        for st in simulate(ctx.work, 'zones', 'zones', n // 4, ctx.sub(k + s), invariant='offsetsSane')[1:]:
            c = dict(st['c'])
            c.update(u=c['t'] + c['lat'], v=c['t'] // 7, lon=c['lon'] + c['t'] % 1000 / 1000.)
            out.append(c)
    return out


def run_derived(ctx, prop):
    jobs = []
    for a, name in enumerate(impl.ALGS):
        pool = cases(ctx, a, ctx.n([420, 320, 320, 130][a], [8000, 6000, 6000, 2000][a]), ctx.sub(10 * prop + a))
        cos = companies(ctx, a, ctx.n([24, 20, 20, 8][a], [400, 300, 300, 100][a]), ctx.sub(2000 + 10 * prop + a))
        for q, ch in enumerate(list(chunks(pool, (5, 4, 6, 1, 3, 7))) + cos):
            engs = impl.ENGINES[name]
            rf = bool(q // 2 % 2) if prop in (16, 17, 19, 20) else False
            tz = TZS[q % len(TZS)] if prop in (15, 16, 18) else None
            jobs.append((prop, a, engs[q // 3 % len(engs)], impl.UC[q % 3], rf, ch, tz))
    if prop == 17:
        for q, ch in enumerate(eras(zone_cases(ctx, ctx.n(800, 10000), 175), (4, 3, 5, 1, 2))):
            a = q % 4
            engs = impl.ENGINES[impl.ALGS[a]]
            jobs.append((prop, a, engs[q // 4 % len(engs)], impl.UC[q % 3], True, ch, None, ch[0]['zone']))
    out = pmap(one, jobs)
    for o in out:
        ctx.count(o[1]['usecase'])
    ctx.evaluations, fails = validate(ctx.work, 'conf_derived', [o[0] for o in out], args=f'{prop}, ', csize=8)
    ctx.traces = len(out)
    ctx.distinct = {(o[1]['algorithm'], o[1]['usecase']) + w for o in out for w in o[2]}
    ctx.samples = [dict(**o[1], cells=o[2][:2]) for o in out[:300:60]]
    ctx.rule = ('results of requests drawn from spec/gen.qnt and spec/company.qnt (and spec/zones.qnt for C17), through every algorithm, engine and use '
                'case; each cell is compared with the formulas of spec/derived.qnt applied to the same result')
    for f in fails:
        o = out[f['rec']]
        k = f['at'][0]
        ctx.violation(f['clause'], **o[1], where=o[2][k] if k < len(o[2]) and prop != 19 else f['at'], index=f['at'],
                      got=f['got'], want=f['want'])
