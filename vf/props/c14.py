"""C14: the accessors of a result are consistent with one another, whatever the order in which they are read."""
import numpy as np

from .. import access, impl
from ..cases import cases, chunks
from ..par import pmap
from ..quint import ERR, fx, pack, simulate, validate
from ..rel import Rec, decide, raw, VALUE, EXACT, TIME


def stamps(v, n):
    x = access.values(v)
    return [raw(y) for y in x] if x is not None and len(x) == n else [ERR] * n


def walls(v, n):
    """as written, zone included"""
    try:
        x = [raw(int(y.tz_localize(None).value)) + 0 for y in v]
        return x if len(x) == n else [ERR] * n
    except Exception:
        return [ERR] * n


def consistent(name, eng, uc, rf, tz, ch):
    n = len(ch)
    import pandas as pd
    ts = pd.DatetimeIndex(impl.dt([c['t'] for c in ch])).tz_localize('UTC').tz_convert(tz)
    lat = np.array([c['lat'] for c in ch])
    lon = np.array([c['lon'] for c in ch])
    sh = dict(sites=(n, n), regular_grid=(n, n, n), transect=(n,))[uc]
    r = impl.call(uc, ts, lat, lon, name, eng, rf)
    f = [n]
    dec, dec2 = impl.read(r, 'declination', (n,)), impl.read(r, 'dec', (n,))
    for k in range(n):
        f += [fx(dec[k]), fx(dec2[k])]
    get = lambda a: getattr(r, a, None)  # noqa: E731
    w = [walls(get('times'), n), walls(get('local_standard_time'), n), stamps(get('times'), n), stamps(get('times_utc'), n)]
    f.append(n)
    for k in range(n):
        f += [x[k] for x in w]
    d = [impl.read(r, a, sh) for a in ('zenith', 'sza', 'elevation', 'cosz', 'azimuth', 'saa')]
    cells = [(k,) if uc == 'transect' else (k, (k + j) % n) if uc == 'sites' else (k, (k + j) % n, (k + 2 * j) % n)
             for k in range(n) for j in range(2 if uc != 'transect' else 1)]
    f.append(len(cells))
    for ix in cells:
        f += [fx(x[ix]) for x in d]
    attrs = []
    for a in ('zenith', 'sza', 'elevation', 'azimuth', 'saa', 'declination', 'dec', 'sunrise'):
        try:
            x = getattr(r, a)
            u = (x('deg') if callable(x) else x).attrs['units']
            attrs += [1, int(str(u).startswith('deg'))]
        except Exception:
            attrs += [1, ERR]
    f += [len(attrs) // 2] + attrs
    return pack(f), dict(algorithm=name, engine=eng, usecase=uc, refraction=rf, first=str(ts[0]))


def history(case, reads):
    """the reads of one behaviour, on one result; each one compared with the same read on a result of its own"""
    name = impl.ALGS[case['alg']]
    eng = ['numpy', 'numexpr'][case['eng']]
    uc = impl.UC[case['uc']]
    rf = bool(case['refr'])
    m = 3
    ts = impl.dt([case['t'] + 86400 * 37 * k + 7211 * k for k in range(m)])
    lat = np.clip(case['lat'] + np.arange(m) * 11. - 11., -90, 90)
    lon = (case['lon'] + np.arange(m) * 77. + 180) % 360 - 180
    rec = Rec(case['alg'], rf, algorithm=name, engine=eng, usecase=uc, refraction=rf, first=str(ts[0]))
    r = impl.call(uc, ts, lat, lon, name, eng, rf)
    done = []
    for q, rd in enumerate(reads):
        acc, arg = rd['acc'], rd['arg']
        fresh = impl.call(uc, ts, lat, lon, name, eng, rf)
        x, y = [access.values(_safe(o, acc, arg)) for o in (fresh, r)]
        if x is not None and y is not None:
            rec.add(EXACT, [len(x), len(y)], ('alone', 'in the history'), read=access.label(acc, arg), after=list(done))
        for a, b in zip(access.sample(x, 4, q), access.sample(y, 4, q)):
            kind = TIME if isinstance(a, int) or isinstance(b, int) else VALUE
            rec.add(kind, [a, b], ('alone', 'in the history'), read=access.label(acc, arg), after=list(done))
        done.append(access.label(acc, arg))
    return rec


def _safe(r, acc, arg):
    try:
        return access.fetch(r, acc, arg)
    except Exception:
        return None


def behaviours(ctx, n, k):
    """complete read histories of spec/reads.qnt"""
    out = []
    for s in range(4):
        tr = simulate(ctx.work, 'reads', 'reads', 15 * (n // 4) + 1, ctx.sub(k + s), invariant='sane')
        for a, b in zip(tr, tr[1:] + [None]):
            if a['history'] and (b is None or not b['history']):
                out.append((a['case_'], a['history']))
    return out


def run(ctx):
    jobs = []
    for a, name in enumerate(impl.ALGS):
        pool = cases(ctx, a, ctx.n([500, 400, 400, 160][a], [6000, 6000, 6000, 2000][a]), ctx.sub(100 + a))
        for q, ch in enumerate(chunks(pool, (5, 4, 7, 1, 6))):
            for e, eng in enumerate(impl.ENGINES[name]):
                jobs.append((name, eng, impl.UC[(q + e) % 3], bool((q + q // 3) % 2), ['UTC', 'Asia/Tokyo', 'Etc/GMT+7'][q // 2 % 3], ch))
    out = pmap(consistent, jobs)
    n, fails = validate(ctx.work, 'conf_access', [p for p, _ in out], csize=10)
    ctx.evaluations += n
    ctx.traces += len(out)
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], index=f['at'], observed=f['got'] / 1e18, expected=f['want'] / 1e18)
    hist = behaviours(ctx, ctx.n(160, 2000), 110)
    recs = pmap(history, hist)
    ctx.count('read histories', len(hist))
    ctx.samples = [dict(case=c, reads=[access.label(r['acc'], r['arg']) for r in h]) for c, h in hist[:3]]
    decide(ctx, recs, csize=5)
    ctx.distinct = {str(m) for _, m in out} | {str(h) for h in hist}
    ctx.rule = ('results of requests of spec/gen.qnt, all accessors related to one another; and histories of 14 reads of '
                'spec/reads.qnt, each read compared with the same read on a fresh result')
