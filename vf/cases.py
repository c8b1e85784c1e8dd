"""Cases (instant, place) generated by the specification's scenario machine."""
from .quint import simulate, S

TC = ['any', 'any', '2020-2050', 'month start', 'century', 'end of february', 'epoch', 'equinox/solstice', 'midnight/noon',
      'new year', 'years -2000 to 6000', 'centuries -20 to 60', 'new years -2000 to 6000']
LC = ['any', 'pole', 'date line', 'equator/greenwich', 'polar circle', 'whole degrees', 'sun overhead', 'sun underfoot',
      'elevation', 'threshold of refraction']


def cases(ctx, alg, n, seed, step='step'):
    """n cases {t, lat, lon (floats, degrees), tc, lc}; several behaviours in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    per = 400 if alg < 3 else 120
    jobs = [(min(per, n - k), seed * 97 + i) for i, k in enumerate(range(0, n, per))]

    def one(job):
        m, s = job
        return simulate(ctx.work, 'gen', f'gen{alg}', m, s, invariant='inDomain', step=step, mbt=False)[1:]
    out = []
    with ThreadPoolExecutor(8) as ex:
        for tr in ex.map(one, jobs):
            for st in tr:
                c = st['c']
                out.append(dict(t=c['t'], lat=c['lat'] / S, lon=max(-180., min(c['lon'] / S, 179.9999999)),
                                tc=c['tc'], lc=c['lc'], u=c['u'], v=c['v']))
    for c in out:
        ctx.count('time: ' + TC[c['tc']])
        ctx.count('place: ' + LC[c['lc']])
    return out


SPANS = ['an instant', 'a minute', 'an hour', 'a day', 'a month', 'a year', 'four years', 'any']
ORDERS = ['drawn', 'increasing', 'decreasing', 'evenly spaced', 'evenly spaced, decreasing', 'in pairs']
PLACES = ['any', 'one', 'one latitude', 'one longitude', 'mirrored', 'close together', 'diagonal', 'a line', 'a line', 'a pole']


def companies(ctx, alg, n, seed):
    """n requests (lists of cases) of spec/company.qnt, of the classes of how their members are related"""
    from concurrent.futures import ThreadPoolExecutor
    per = 60 if alg < 3 else 25
    jobs = [(min(per, n - k), seed * 89 + i) for i, k in enumerate(range(0, n, per))]

    def one(job):
        return simulate(ctx.work, 'company', f'company{alg}', job[0], job[1], init='initCompany', step='gather',
                        invariant='together', mbt=False)[1:]
    out = []
    with ThreadPoolExecutor(8) as ex:
        for tr in ex.map(one, jobs):
            for st in tr:
                q = st['q']
                out.append([dict(t=c['t'], lat=c['lat'] / S, lon=max(-180., min(c['lon'] / S, 179.9999999)), tc=c['tc'],
                                 lc=c['lc'], u=c['u'], v=c['v'], order=q['order']) for c in q['cs']])
                ctx.count('instants within: ' + SPANS[q['span']])
                ctx.count('instants: ' + ORDERS[q['order']])
                ctx.count('places: ' + PLACES[q['places']])
    return out


def chunks(cs, sizes=(8, 7, 1, 6, 9, 2, 10, 5)):
    """cases in groups of varying size: one request each"""
    i = k = 0
    while i < len(cs):
        n = sizes[k % len(sizes)]
        yield cs[i:i + n]
        i += n
        k += 1
