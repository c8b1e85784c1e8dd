"""C13: results are labelled with exactly the request that produced them."""
import re

import numpy as np

from .. import impl
from ..cases import cases, chunks
from ..par import pmap
from ..quint import ERR, NAN, fx, pack, validate
from ..rel import raw

# variable: (dependence, accessor, arguments); dependence as in spec/conf_label.qnt
VARS = [(0, 'latitude', None), (1, 'longitude', None), (2, 'ecf', None), (2, 'eot', None), (2, 'declination', None),
        (2, 'dec', None), (5, 'zenith', None), (5, 'sza', None), (5, 'elevation', None), (5, 'azimuth', None),
        (5, 'saa', None), (5, 'cosz', None), (4, 'true_solar_time', None), (5, 'airmass', ()),
        (5, 'airmass', ('kasten_1965',)), (5, 'eth', ()), (5, 'eth', (1361.1, 'perez_1990')), (3, 'sunrise', ('deg',)),
        (3, 'sunrise', ('rad',)), (6, 'sunrise', ('tst',)), (6, 'sunrise', ('utc',)), (6, 'sunrise', ('local',)),
        (3, 'sunset', ('deg',)), (3, 'sunset', ('rad',)), (6, 'sunset', ('tst',)), (6, 'sunset', ('utc',)),
        (6, 'sunset', ('local',)), (3, 'daylight_length', ()), (6, 'incidence', (30., 45.)), (6, 'incidence', (0., 0.))]
UNITS = {'degrees': 0, 'radians': 1, 'minutes': 2, '-': 3, 'W m-2': 4, 'hour': 5, 'TST': 6, 'UTC': 7, 'degrees north': 9,
         'degrees east': 10, None: 11}
DIM = {'time': 0, 'location': 1, 'latitude': 2, 'longitude': 3}


def code(name, names):
    try:
        return list(names).index(str(name))
    except ValueError:
        return ERR


def coord(a, name, conv):
    if name not in a.coords:
        return [-1]
    try:
        v = np.atleast_1d(a.coords[name].values)
        if v.dtype.kind == 'M':
            v = [raw(float('nan') if np.isnat(x) else int(x.astype('datetime64[ns]').astype('int64'))) for x in v]
        else:
            v = [conv(x) for x in v]
        return [len(v)] + v
    except Exception:
        return [0]


def declared(a, local):
    """units, range that is declared, and range of the values"""
    u = a.attrs.get('units')
    f = [8 if local else UNITS.get(u, ERR)] if not local or u == 'UTC' else [ERR]  # the requests are naive
    lim = re.fullmatch(r'[\[(] *([-+.\w]+) *, *([-+.\w]+) *[\])]', str(a.attrs.get('range', '')))
    f += [fx(float(x)) for x in lim.groups()] if lim else [NAN, NAN]
    v = np.asarray(a.values)
    v = v[~np.isnan(v)] if v.dtype.kind == 'f' else v[:0]
    return f + ([fx(v.min()), fx(v.max())] if len(v) else [NAN, NAN])


def one(uc, name, eng, rf, ch, u):
    n = len(ch)
    t = np.array([c['t'] for c in ch], dtype='int64').astype('datetime64[s]').astype('datetime64[ns]')
    if u % 5 == 0:
        t[u % n] = np.datetime64('NaT')
    ny, nx = max(1, n - u % 3), max(1, n - (u // 3) % 4)
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    if u % 4 == 1:
        lat, lon = np.round(lat), np.round(lon)
        lon[lon >= 180] = -180
    lat = lat if uc == 'transect' else lat[:ny]
    lon = lon if uc == 'transect' else lon[:ny] if uc == 'sites' else lon[-nx:]
    # coordinates that are related: the same ones, all equal, opposite, sorted, repeated
    rel = u // 4 % 8
    if rel == 1 or (rel == 3 and lat.size == lon.size):
        lon = lat.copy() if rel == 1 else -lat
    elif rel == 2:
        lat = np.full_like(lat, lat[0])
    elif rel == 4:
        lat, lon = np.sort(lat)[::-1].copy(), np.sort(lon)
    elif rel == 5:
        lat[-1], lon[-1] = lat[0], lon[0]
    ny, nx = len(lat), len(lon)
    r = impl.call(uc, t, lat, lon, name, eng, rf)
    f = [impl.UC.index(uc), n, ny, nx] + [raw(float('nan') if np.isnat(x) else int(x.astype('int64'))) for x in t]
    f += [fx(x) for x in lat] + [fx(x) for x in lon]

    def attr(a, names=None):
        try:
            v = getattr(r, a)
            return code(v, names) if names else v
        except Exception:
            return ERR
    echo = [(impl.ALGS.index(name), attr('algorithm', impl.ALGS)), (code(eng, ['numpy', 'numexpr']), attr('engine', ['numpy', 'numexpr'])),
            (int(rf), (lambda h: ERR if h is ERR else int(bool(h)))(attr('has_refraction'))),
            (impl.UC.index(uc), attr('usecase', impl.UC))]
    for a, ref, conv in (('times_utc', t, None), ('times', t, None), ('latitude', lat, fx), ('longitude', lon, fx)):
        try:
            v = getattr(r, a)
            v = v.tz_localize(None).values.astype('datetime64[ns]') if conv is None else np.asarray(v.values)
            w = [raw(float('nan') if np.isnat(x) else int(x.astype('int64'))) for x in v] if conv is None else [fx(x) for x in v]
        except Exception:
            w = []
        x = [raw(float('nan') if np.isnat(y) else int(y.astype('int64'))) for y in ref] if conv is None else [fx(y) for y in ref]
        echo.append((len(x), len(w)))
        if len(w) == len(x):
            echo += list(zip(x, w))
    f.append(len(echo))
    for a, b in echo:
        f += [a, b]
    f.append(len(VARS))
    for m, (dep, acc, args) in enumerate(VARS):
        f.append(100 * dep + m)
        try:
            a = getattr(r, acc)
            if args is not None:
                a = a(*args)
            g = [len(a.dims)]
            for d, s in zip(a.dims, a.shape):
                g += [DIM.get(d, ERR), s]
            g += coord(a, 'time', raw) + coord(a, 'latitude', fx) + coord(a, 'longitude', fx)
            g += declared(a, args == ('local',))
        except Exception:
            g = [ERR, -1, -1, -1, ERR, NAN, NAN, NAN, NAN]
        f += g
    return pack(f), dict(usecase=uc, algorithm=name, engine=eng, refraction=rf, sizes=(n, ny, nx), first=str(t[0]))


def run(ctx):
    jobs = []
    for a, name in enumerate(impl.ALGS):
        pool = cases(ctx, a, ctx.n([500, 300, 300, 160][a], [6000, 4000, 4000, 1600][a]), ctx.sub(90 + a))
        for q, ch in enumerate(chunks(pool, (4, 5, 1, 3, 6, 2))):
            engs = impl.ENGINES[name]
            jobs.append((impl.UC[q % 3], name, engs[(q // 3) % len(engs)], bool(ch[0]['v'] % 2), ch, ch[0]['u']))
    out = pmap(one, jobs)
    ctx.evaluations, fails = validate(ctx.work, 'conf_label', [p for p, _ in out], csize=4)
    ctx.traces = len(out)
    ctx.distinct = {str(m) for _, m in out}
    ctx.samples = [m for _, m in out[:200:40]]
    ctx.rule = ('requests of 1-6 instants and 1-6 places of spec/gen.qnt, unsorted, some with NaT; 30 variables of every result '
                'are checked for rank, dimensions, sizes, and coordinates')
    for f in fails:
        m = f['at'][0]
        v = 'attribute' if f['clause'][:4] == 'echo' else ' '.join(map(str, (VARS[m % 100][1],) + (VARS[m % 100][2] or ())))
        ctx.violation(f['clause'], **out[f['rec']][1], variable=v, got=f['got'], want=f['want'])
