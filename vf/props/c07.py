"""C07: a cell depends on its own instant and location only."""
import numpy as np

from .. import impl
from ..cases import cases, chunks, companies
from ..par import pmap
from ..rel import Rec, decide, ECF, EOT, DEC, COSINE, TIME, ANGLE, IRRAD

# variable, kind, accessor, arguments, depends on: time (t), latitude (y), longitude (x)
VARS = [('ecf', ECF, 'ecf', (), 't'), ('eot', EOT, 'eot', (), 't'), ('declination', DEC, 'declination', (), 't'),
        ('cosz', COSINE, 'cosz', (), 'tyx'), ('true_solar_time', TIME, 'true_solar_time', (), 'tx'),
        ('sunrise deg', ANGLE, 'sunrise', ('deg',), 'ty'), ('sunset utc', TIME, 'sunset', ('utc',), 'tyx'),
        ('incidence', COSINE, 'incidence', (40., 25.), 'tyx'), ('eth', IRRAD, 'eth', (1361.1, 'none'), 'tyx')]
FILL = [0, 3, 17, 64, 300, 1100, 4096, 5000, 20000, 66000]


def index(uc, deps, k, j, i):
    if uc == 'transect':
        return (k,)
    if uc == 'regular_grid':
        return (k,) + ((j,) if 'y' in deps else ()) + ((i,) if 'x' in deps else ())
    return (k,) + ((j,) if ('y' in deps or 'x' in deps) else ())


def shape(uc, deps, nt, ny, nx):
    return tuple(dict(enumerate((nt, ny, nx)))[d] for d in dims(uc, deps))


def dims(uc, deps):
    if uc == 'transect':
        return (0,)
    if uc == 'regular_grid':
        return (0,) + ((1,) if 'y' in deps else ()) + ((2,) if 'x' in deps else ())
    return (0,) + ((1,) if ('y' in deps or 'x' in deps) else ())


class View:
    def __init__(self, uc, ts, lat, lon, *a):
        self.uc, self.n = uc, (len(ts), len(lat), len(lon))
        self.r = impl.call(uc, ts, lat, lon, *a)
        self.c = {}

    def get(self, var, name, args, deps, k, j, i):
        if var not in self.c:
            self.c[var] = impl.read(self.r, name, shape(self.uc, deps, *self.n), *args)
        return self.c[var][index(self.uc, deps, k, j, i)]


def run(ctx):
    jobs = []
    for alg, name in enumerate(impl.ALGS):
        cs = cases(ctx, alg, ctx.n([360, 360, 360, 200][alg], [6000, 6000, 6000, 2000][alg]), ctx.sub(30 + alg))
        cos = companies(ctx, alg, ctx.n([75, 75, 75, 40][alg], [1500, 1500, 1500, 400][alg]), ctx.sub(730 + alg))
        for q, ch in enumerate(list(chunks(cs, (4, 6, 3, 5, 2, 7, 1))) + cos):
            engs = impl.ENGINES[name]
            jobs.append((alg, name, engs[(q + ch[0]['u']) % len(engs)], ch, q))
    recs = pmap(one, jobs)
    for r in recs:
        ctx.count(r.info.pop('padding'))
    ctx.distinct = {(r.info['algorithm'], r.info['usecase'], r.info['engine'], r.info['first']) for r in recs}
    ctx.rule = ('every case of a request drawn from spec/gen.qnt or spec/company.qnt (how the members are related) is also asked alone, and then in permuted, repeated, split and '
                'padded requests (among up to 66000 other instants or locations, at positions anywhere, at the ends and around powers of two and ten); all must agree')
    decide(ctx, recs, csize=5)


def one(alg, name, eng, ch, q):
    n = len(ch)
    u, v = ch[0]['u'], ch[0]['v']
    uc = impl.UC[q % 3]
    rf = bool((u // 5) % 2)
    when = [c['t'] for c in ch]
    order = ch[0].get('order', -1)
    if order < 0 and v % 2:        # all within a few years
        when = [when[0] + (1 if when[0] < 8.5e9 else -1) * (v * 7919 * m % 1500) * 86400 + (x - when[0]) % 86400 for m, x in enumerate(when)]
    ts = impl.moments(when, u, v, order in (3, 4))
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    a = (name, eng, rf)
    rec = Rec(alg, rf, algorithm=name, usecase=uc, engine=eng, refraction=rf, first=str(ts[0]), padding='not padded')
    views = []                                      # (name, view, position of case m -> (k, j, i))

    def add(label, it, iy, ix):
        """a request for instants it, latitudes iy and longitudes ix (indices of cases)"""
        views.append((label, View(uc, ts[it], lat[iy], lon[ix], *a), list(it), list(iy), list(ix)))
    base = list(range(n))
    add('as given', base, base, base)
    perm = sorted(base, key=lambda m: (m * (2 * (u % 50) + 1) + v) % (n + 1 if n % 2 == 0 else n + 2))
    rev = base[::-1]
    if uc == 'transect':
        add('permuted', perm, perm, perm)
        rep = [m for m in rev for _ in range(1 + (m + u) % 3)]
        add('repeated', rep, rep, rep)
        h = base[:1 + u % n]
        add('a part', h, h, h)
    else:
        same = uc == 'sites'
        py = sorted(base, key=lambda m: (m * (2 * (v % 50) + 1) + u) % (n + 3))
        add('permuted', perm, py, py if same else rev)
        ry = [m for m in py for _ in range(1 + (m + v) % 2)]
        add('repeated', [m for m in rev for _ in range(1 + (m + u) % 3)], ry, ry if same else ry[::-1])
        add('a part', base[:1 + u % n], base, base)
        add('some locations', base, base[v % n:], base[v % n:])
    # many other instants (or locations) around
    nf = FILL[(u // 11) % (len(FILL) if uc == 'transect' else len(FILL) - 1)] if order < 0 else 0
    if name == 'nrel':
        nf = min(nf, 20000 if uc == 'transect' else 5000)
    if nf:
        rec.info['padding'] = f'padded with {nf}'
        fill = ts[0] + np.arange(nf) * np.timedelta64(3607 + v % 86400, 's')
        # where the cases go among the others: anywhere, next to the ends, and around powers of two and of ten
        edges = [1 << e for e in range(2, 17)] + [10**e for e in range(1, 6)] + [500, 5000, 50000, nf // 2]
        pos = {(u * 31 + 7919 * m) % (nf + n): m for m in base}
        for x, e in enumerate([0, nf + n - 1] + [e + d for e in edges for d in (-1, 0, 1)]):
            if 0 <= e < nf + n and (x < 2 or (x + u) % 3 == 0):
                pos.setdefault(e, (x + v) % n)
        nt_ = max(nf + n, max(pos) + 1)
        f_ = ts[0] + np.arange(nt_) * np.timedelta64((1 if when[0] < 0 else -1) * (3607 + v % 86400), 's')
        where = {m: sorted(e for e in pos if pos[e] == m) for m in base}
        if (v // 3) % 2 and uc != 'transect' and (uc == 'sites' or nf <= 5000):
            g = np.linspace(-90, 90, nt_)
            yy, xx = g.copy(), -g
            for e, m in pos.items():
                yy[e], xx[e] = lat[m], lon[m]
            label = f'with {nf} other locations'
            if uc == 'sites':
                vw = View(uc, ts, yy, xx, *a)
                padded = lambda m, c: [(m, e, e) for e in where.get(c, [])]             # noqa: E731
            elif (v // 7) % 2:
                vw = View(uc, ts, yy, lon, *a)
                padded = lambda m, c: [(m, e, c) for e in where.get(c, [])]             # noqa: E731
            else:
                vw = View(uc, ts, lat, xx, *a)
                padded = lambda m, c: [(m, c, e) for e in where.get(c, [])]             # noqa: E731
        else:
            tt = f_.copy()
            for e, m in pos.items():
                tt[e] = ts[m]
            label = f'with {nf} other instants'
            if uc == 'transect':
                o = np.arange(nt_)
                yy, xx = lat[o % n], lon[(o + 1) % n]
                for e, m in pos.items():
                    yy[e], xx[e] = lat[m], lon[m]
                vw = View(uc, tt, yy, xx, *a)
                padded = lambda m, c: [(e, e, e) for e in where.get(m, [])]             # noqa: E731
            else:
                vw = View(uc, tt, lat, lon, *a)
                padded = lambda m, c: [(e, c, c) for e in where.get(m, [])]             # noqa: E731
        views.append((label, vw, padded, None, None))

    if order in (3, 4) and n > 1:       # in a long series of the same step
        dt = when[1] - when[0]
        room = (8.8e9 - when[0] if dt > 0 else when[0] + 8.5e9) / max(1, abs(dt))
        nl = max(n, int(min(room, FILL[3 + u % (6 if name != 'nrel' else 4)])))
        tt = ts[0] + np.arange(nl) * np.timedelta64(dt, 's')
        o = np.arange(nl) % n
        vw = View(uc, tt, lat[o], lon[o], *a) if uc == 'transect' else View(uc, tt, lat, lon, *a)
        rec.info['padding'] = 'in a long series'
        views.append((f'in a series of {nl}', vw, lambda m, c: [(m, m, m) if uc == 'transect' else (m, c, c)], None, None))

    def place(view, m, c):
        """where cell (instant of m, latitude of c, longitude of c) is in a view"""
        label, vw, it, iy, ix = view
        if callable(it):
            return it(m, c)
        if uc == 'transect':
            return [(it.index(m),) * 3] if m in it else []
        if m in it and c in iy and c in ix:
            # the last of the repeated ones
            return [(len(it) - 1 - it[::-1].index(m), len(iy) - 1 - iy[::-1].index(c), len(ix) - 1 - ix[::-1].index(c))]
        return []
    for m in base if n < 8 else sorted({0, 1, n - 1, u % n, v % n}):
        for c in sorted({m} if uc == 'transect' else {m, (m + 1 + u) % n}):
            alone = View(uc, ts[m:m + 1], lat[c:c + 1], lon[c:c + 1], *a)
            spots = [('alone', alone, (0, 0, 0))]
            for vw in views:
                for p in place(vw, m, c):
                    spots.append((vw[0], vw[1], p))
            who = [s[0] for s in spots]
            where = dict(time=str(ts[m]), place=(float(lat[c]), float(lon[c])))
            rec.dir([(w.get('zenith', 'zenith', (), 'tyx', *p), w.get('azimuth', 'azimuth', (), 'tyx', *p))
                     for _, w, p in spots], who, **where)
            for var, kind, acc, args, deps in (VARS if c == m else VARS[3:6]):
                rec.add(kind, [w.get(var, acc, args, deps, *p) for _, w, p in spots], who, var=var, **where)
    return rec
