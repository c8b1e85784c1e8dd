"""C01-C04: the results of an algorithm, through every use case, engine and
refraction flag, are those of its specification (spec/conf_alg.qnt)."""
import numpy as np

from .. import impl
from ..cases import cases, chunks, companies
from ..par import pmap
from ..quint import fx, pack, validate

RULE = ('cases (instant, place) are drawn from the scenario machine spec/gen.qnt by calendar class (month, leap, century '
        'and year ends, epoch, equinoxes, midnights) and place class (poles, date line, equator, polar circles, sun overhead, '
        'underfoot and at chosen elevations); a case is non-trivial if it is not of the class any/any; requests whose members are related are drawn from spec/company.qnt')


def observe(alg, chunk, extra=3):
    """records of spec/conf_alg.qnt, one per instant of a chunk"""
    name = impl.ALGS[alg]
    ts = impl.dt([c['t'] for c in chunk])
    lat = np.array([c['lat'] for c in chunk])
    lon = np.array([c['lon'] for c in chunk])
    n = len(chunk)
    obs = {}
    for e, eng in enumerate(impl.ENGINES[name]):
        e = e if len(impl.ENGINES[name]) > 1 else 1
        for rf in (0, 1):
            for u, uc in enumerate(impl.UC):
                shape = [(n, n), (n, n, n), (n,)][u]
                r = impl.call(uc, ts, lat, lon, name, eng, bool(rf))
                obs[100 * u + 10 * e + rf] = dict(
                    ecf=impl.read(r, 'ecf', (n,)), eot=impl.read(r, 'eot', (n,)), dec=impl.read(r, 'declination', (n,)),
                    zen=impl.read(r, 'zenith', shape), az=impl.read(r, 'azimuth', shape))
    recs, meta = [], []
    for k, c in enumerate(chunk):
        f = [c['t'], len(obs)]
        for s, o in obs.items():
            f += [s, fx(o['ecf'][k]), fx(o['eot'][k]), fx(o['dec'][k])]
        # (latitude index, longitude index)
        cells = [(k, k)] + [((k + 1 + j) % n, (k + 1 + j) % n) for j in range(min(extra - 1, n - 1))]
        if n > 1:
            cells.append(((k + 2) % n, (k + 1 + c['u'] % (n - 1)) % n))
        f.append(len(cells))
        for (a, b) in cells:
            seen = []
            for s, o in obs.items():
                u = s // 100
                if u == 1:
                    ix = (k, a, b)
                elif u == 0 and a == b:
                    ix = (k, a)
                elif u == 2 and a == b == k:
                    ix = (k,)
                else:
                    continue
                seen.append((s, fx(o['zen'][ix]), fx(o['az'][ix])))
            f += [fx(lat[a]), fx(lon[b]), len(seen)]
            for o in seen:
                f += o
        recs.append(pack(f))
        meta.append(dict(t=str(ts[k]), cells=[(float(lat[a]), float(lon[b])) for a, b in cells]))
    return recs, meta


def describe(src):
    return dict(usecase=impl.UC[src // 100], engine=['numpy', 'numexpr'][src // 10 % 10], refraction=bool(src % 10))


def run_alg(ctx, alg):
    n = ctx.n([720, 720, 720, 340][alg], [16000, 16000, 16000, 5000][alg])
    cs = cases(ctx, alg, n, ctx.sub(alg)) + cases(ctx, alg, n // 4, ctx.sub(10 + alg), step='far')
    recs, meta = [], []
    cos = companies(ctx, alg, ctx.n([50, 50, 50, 16][alg], [800, 800, 800, 200][alg]), ctx.sub(700 + alg))
    for r, m in pmap(observe, [(alg, ch) for ch in list(chunks(cs)) + cos]):
        recs += r
        meta += m
    ctx.evaluations, fails = validate(ctx.work, 'conf_alg', recs, args=f'{alg}, ', csize=6)
    ctx.traces = len(recs)
    ctx.distinct = {(c['t'], c['lat'], c['lon']) for c in cs if c['tc'] > 1 or c['lc'] > 0}
    ctx.samples = [dict(time=m['t'], cells=m['cells']) for m in meta[3:40:9]]
    ctx.rule = RULE
    ctx.assumptions = ['tolerances: cos(zenith) 1.2e-6 (psa), 7e-7 (soltrack, iqbal), 1e-8 (nrel); azimuth x sin(zenith) 5e-7 (nrel 2e-8); declination 1e-10 rad; '
                       'equation of time 1e-8 min; ecf 1e-11', 'whole-second instants in years -2000 to 6000, most of them in 1700-2250']
    for f in fails:
        m = meta[f['rec']]
        info = dict(algorithm=impl.ALGS[alg], time=m['t'], observed=f['got'] / 1e18, expected=f['want'] / 1e18,
                    **describe(f['at'][0]))
        if len(f['at']) > 1:
            info['place'] = m['cells'][f['at'][1]]
        ctx.violation(f['clause'], **info)
