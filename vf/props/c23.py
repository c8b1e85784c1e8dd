"""C23: utils.datetime (spec/conf_conv.qnt)"""
import datetime

import numpy as np
import pandas as pd

from .. import access, impl
from ..cases import cases, chunks
from ..par import pmap
from ..quint import ERR, fx, pack, validate
from ..rel import raw

FORMS = ['datetime64[ns]', 'datetime64[s]', 'DatetimeIndex', 'list of datetime', 'list of strings', 'Series', 'aware index',
         'list of Timestamp']


def written(ns, form):
    a = np.array(ns, dtype='int64').astype('datetime64[ns]')
    a = [a, a.astype('datetime64[s]'), pd.DatetimeIndex(a), None, None, pd.Series(a), None, [pd.Timestamp(x) for x in a]][form] \
        if form in (0, 1, 2, 5, 7) else a
    if form == 3:
        a = [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=x // 10**9) for x in ns]
    if form == 4:
        a = [str(x) for x in np.array([x // 10**9 for x in ns], dtype='datetime64[s]')]
    if form == 6:
        a = pd.DatetimeIndex(a).tz_localize('UTC').tz_convert(datetime.timezone(datetime.timedelta(hours=-7)))
    return a


def one(ch, form, nj, nat):
    impl.sunwhere()
    from sunwhere.utils import datetime as dtm
    K, J = len(ch), nj
    sub = form in (0, 2, 5, 6, 7)
    ns = [c['t'] * 10**9 + (c['u'] % 10**9 if sub else 0) for c in ch]
    lon = [ch[j % K]['lon'] if j < K else -180. + 360. * (j % 7) / 7 for j in range(J)]
    t = written(ns, form)
    y = lon[0] if J == 1 and form % 2 else np.array(lon)
    if K == 1 and form in (0, 1, 4, 7):
        t = t[0]
    if nat and form in (0, 1) and K > 1:
        t = t.copy()
        t[K // 2] = np.datetime64('NaT')
        ns[K // 2] = None
    f = [K, J] + [raw(float('nan')) if x is None else x for x in ns] + [fx(x) for x in lon]
    for fn, back in ((dtm.true_solar_time, dtm.universal_time_coordinated), (dtm.universal_time_coordinated, dtm.true_solar_time)):
        try:
            r = fn(t, y)
            sh = list(np.shape(r))
            v = access.values(np.asarray(r))
        except Exception:
            sh, v = [-1], None
        if v is None or len(v) != K * J:
            v = [None] * (K * J)
        f += [len(sh), *sh] + [raw(x) for x in v]
        und = []
        for i in range(min(3, K * J)):
            k, j = i % K, (i * 2 + 1) % J
            if ns[k] is None:
                continue
            try:
                b = access.values(np.asarray(back(np.datetime64(v[k * J + j], 'ns'), lon[j])))
                und.append([k, j, raw(b[0]) if len(b) == 1 else ERR])
            except Exception:
                und.append([k, j, ERR])
        f.append(len(und))
        for x in und:
            f += x
    return pack(f), dict(form=FORMS[form], K=K, J=J, times=[None if x is None else str(np.datetime64(x, 'ns')) for x in ns][:4], longitudes=lon[:4])


def run(ctx):
    pool = cases(ctx, 0, ctx.n(1200, 24000), ctx.sub(230))
    jobs = [(ch, q % 8, (3, 1, 2, 5)[q // 8 % 4], q % 5 == 2) for q, ch in enumerate(chunks(pool, (4, 3, 1, 5, 2, 1)))]
    out = pmap(one, jobs)
    ctx.evaluations, fails = validate(ctx.work, 'conf_conv', [p for p, _ in out], csize=8)
    ctx.traces, ctx.distinct = len(out), {str(m) for _, m in out}
    ctx.samples = [m for _, m in out[:5]]
    for _, m in out:
        ctx.count(m['form'])
    ctx.rule = ('instants and longitudes of spec/gen.qnt, in several types and sizes, converted by both functions; each value is compared '
                'with the one computed by the specification, with its own equation of time')
    for f in fails:
        ctx.violation(f['clause'], function=['true_solar_time', 'universal_time_coordinated'][f['at'][0]], at=f['at'][1:], got=f['got'],
                      want=f['want'], **out[f['rec']][1])
