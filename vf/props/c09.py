"""C09: results depend on the instants, not on how they are written."""
import datetime as dtm
import zoneinfo

import numpy as np
import pandas as pd
import dateutil.tz
import pytz

from .. import impl
from ..cases import chunks
from ..par import pmap
from ..quint import ERR, pack, simulate, validate
from ..rel import Rec, decide, raw, ECF, EOT, DEC, COSINE, TIME

ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'America/St_Johns',
         'Pacific/Kiritimati', 'Pacific/Niue', +19800, -11700, 'Asia/Tokyo', 'Europe/London', +1172, 'Africa/Monrovia']
FORMS = ['datetime64[s] array', 'naive datetimes', 'naive strings', 'naive DatetimeIndex', 'pytz DatetimeIndex',
         'zoneinfo DatetimeIndex', 'zoneinfo Timestamps', 'zoneinfo datetimes', 'fixed-offset DatetimeIndex',
         'strings with offset', 'aware scalar', 'naive scalar', 'datetime64[ns] array', 'pytz DatetimeIndex', 'dateutil DatetimeIndex', 'dateutil datetimes']


def fixed(off):
    return dtm.timezone(dtm.timedelta(seconds=off))


def write(form, zone, ns):
    """the instants (ns since the epoch) in a given form -> (times, zone actually written)"""
    u = pd.to_datetime(np.array(ns, dtype='int64').astype('datetime64[ns]'))
    if form in (0, 1, 2, 3, 11, 12):
        if form == 0:
            x = u.values.astype('datetime64[s]')
        elif form == 1:
            x = [t.to_pydatetime() for t in u]
        elif form == 2:
            x = [t.isoformat() for t in u]
        elif form == 3:
            x = u
        elif form == 11:
            x = u[0].isoformat(sep=' ')
        else:
            x = u.values
        return x, 0
    u = u.tz_localize('UTC')
    z = ZONES[zone]
    if form in (8, 9) and isinstance(z, str):
        zone = 8 + zone % 2
        z = ZONES[zone]
    if form == 9 and zone == 12:        # (ISO 8601 has no seconds in offsets)
        zone, z = 8, ZONES[8]
    if isinstance(z, int):
        tz = fixed(z) if form != 13 or z % 60 else pytz.FixedOffset(z // 60)
    elif form in (4, 13) and zone != 13:        # (pytz rounds the historic offsets to minutes)
        tz = pytz.timezone(z)
    # (dateutil knows no rules before 1902 and after 2037)
    elif form in (14, 15) and zone != 13 and min(ns) >= 0 and max(ns) < 2114380800 * 10**9:
        tz = dateutil.tz.gettz(z)
    else:
        tz = zoneinfo.ZoneInfo(z)
    v = u.tz_convert(tz)
    if form in (4, 5, 8, 13, 14):
        return v, zone
    if form == 6:
        return list(v), zone
    if form in (7, 15):
        return [t.to_pydatetime() for t in v], zone
    if form == 9:
        return [t.isoformat() for t in v], zone
    return v[0], zone


NAMES = {0: {'UTC', 'utc', 'Etc/UTC'}}
for _k, _z in enumerate(ZONES):
    NAMES.setdefault(_k, {_z} if isinstance(_z, str) else set())
NAMES[8] |= {'UTC+05:30', 'pytz.FixedOffset(330)', '+05:30'}
NAMES[9] |= {'UTC-03:15', 'pytz.FixedOffset(-195)', '-03:15'}
NAMES[12] |= {'UTC+00:19:32', '+00:19:32'}


def eras(cs, sizes):
    """requests of cases; those of the zone whose rules are of another time are not mixed with others"""
    return list(chunks([c for c in cs if c['zone'] != 13], sizes)) + list(chunks([c for c in cs if c['zone'] == 13], sizes))


def run(ctx):
    cs = []
    for s in range(8):
        for st in simulate(ctx.work, 'zones', 'zones', ctx.n(110, 1400), ctx.sub(50 + s), invariant='offsetsSane')[1:]:
            cs.append(st['c'])
    jobs = [(ch, q) for q, ch in enumerate(eras(cs, (3, 5, 1, 4, 2, 6)))]
    out = pmap(one, jobs)
    recs = [r for _, r, _ in out]
    times = [t for t, _, _ in out]
    for _, _, m in out:
        ctx.count('form: ' + m['form'])
        ctx.count('zone: ' + str(m['zone']))
    # instants that do not fit in 64-bit nanoseconds
    for y in (3000, 1500):
        t, m = far(y)
        times.append(t)
        out.append((t, None, m))
    n, fails = validate(ctx.work, 'conf_time', times)
    ctx.evaluations += n
    ctx.traces += len(times)
    for f in fails:
        ctx.violation(f['clause'], observed=f['got'], expected=f['want'], index=f['at'][0], **out[f['rec']][2])
    ctx.samples = [m for _, _, m in out[:40:9]]
    decide(ctx, recs)
    ctx.distinct = {str(m) for _, _, m in out if 'form' in m}
    ctx.rule = ('instants around the changes of civil time of 14 zones (spec/zones.qnt), written in 16 forms; the reported times, '
                'offsets and coordinates are compared with the civil-time model, the geometry with that of naive UTC instants')


def far(y):
    t = np.array([f'{y}-06-01T12:00:00'], dtype='datetime64[s]')
    r = impl.call('sites', t, [10.], [20.], 'nrel')
    ns = int(t.astype('int64')[0]) * 10**9
    code = 0 if not isinstance(r, impl.Crash) else ERR

    def sec(get):
        try:
            return raw(int(np.datetime64(get(), 's').astype('int64')) * 10**9)
        except Exception:
            return ERR
    f = [0, code, 1, ns, sec(lambda: r.times.tz_localize(None).values[0]),
         sec(lambda: r.times_utc.tz_localize(None).values[0]),
         sec(lambda: r.local_standard_time.tz_localize(None).values[0]), 0,
         sec(lambda: r.zenith.coords['time'].values[0])]
    return pack(f), dict(probe=f'sites([datetime64[s] {t[0]}], [10.], [20.], "nrel")')


def stamp(x):
    try:
        return int(pd.Timestamp(x).tz_convert('UTC').tz_localize(None).value)
    except Exception:
        return ERR


def one(ch, q):
    form = ch[0]['form']
    zone = ch[0]['zone']
    sec = form == 0
    # all instants of a request are in one zone (they are close to somebody's changes of time)
    ns = [c['t'] * 10**9 + (0 if sec else c['sub'] * 1000) for c in ch]
    if form in (2, 9):                                # a list of strings has one format
        ns = [c['t'] * 10**9 for c in ch]
    if form in (10, 11):
        ns = ns[:1]
    times, zone = write(form, zone, ns)
    n = len(ns)
    uc = impl.UC[q % 3] if form not in (10, 11) else impl.UC[q % 2]
    alg = (q // 3) % 4
    name = impl.ALGS[alg]
    eng = impl.ENGINES[name][q % len(impl.ENGINES[name])]
    lat = np.array([c['lat'] for c in ch[:n]], dtype=float)
    lon = np.array([c['lon'] for c in ch[:n]], dtype=float)
    r = impl.call(uc, times, lat, lon, name, eng, True)
    ref = impl.call(uc, np.array(ns, dtype='int64').astype('datetime64[ns]'), lat, lon, name, eng, True)
    meta = dict(form=FORMS[form], zone=str(ZONES[zone]), usecase=uc, algorithm=name, engine=eng,
                instants=[str(np.datetime64(x, 'ns')) for x in ns])

    def lst(get):
        try:
            x = list(get())
            return x if len(x) == n else [None] * n
        except Exception:
            return [None] * n
    ts, us, ls = lst(lambda: r.times), lst(lambda: r.times_utc), lst(lambda: r.local_standard_time)
    wall = lst(lambda: r.zenith.coords['time'].values.astype('datetime64[ns]').astype('int64'))
    w2 = lst(lambda: r.true_solar_time.coords['time'].values.astype('datetime64[ns]').astype('int64'))

    def off(x):
        try:
            return int(x.utcoffset().total_seconds())
        except Exception:
            return ERR
    try:
        tzname = str(r.timezone)
        for z in ZONES:         # (dateutil's are named after a file)
            if isinstance(z, str) and tzname.startswith('tzfile') and tzname.endswith(f"/{z}')"):
                tzname = z
    except Exception:
        tzname = None
    code = zone if tzname in NAMES[zone] else next((k for k, v in NAMES.items() if tzname in v), ERR)
    f = [zone, code, n]
    for k in range(n):
        f += [ns[k], stamp(ts[k]), stamp(us[k]), stamp(ls[k]), off(ts[k]), raw(wall[k])]
    meta['reported'] = tzname
    rec = Rec(alg, True, **{k: v for k, v in meta.items() if k != 'instants'})
    sh = dict(sites=(n, n), regular_grid=(n, n, n), transect=(n,))[uc]
    xs = dict(sites=(n, n), regular_grid=(n, n), transect=(n,))[uc]
    z = [impl.read(x, 'zenith', sh) for x in (r, ref)]
    a = [impl.read(x, 'azimuth', sh) for x in (r, ref)]
    c = [impl.read(x, 'incidence', sh, 30., 50.) for x in (r, ref)]
    tst = [impl.read(x, 'true_solar_time', xs) for x in (r, ref)]
    su = [impl.read(x, 'sunrise', sh, 'utc') for x in (r, ref)]
    who = (FORMS[form], 'naive UTC')
    for k in range(n):
        t = str(np.datetime64(ns[k], 'ns'))
        for var, kind in (('ecf', ECF), ('eot', EOT), ('declination', DEC)):
            rec.add(kind, [impl.read(x, var, (n,))[k] for x in (r, ref)], who, var=var, time=t)
        rec.add(TIME, [wall[k], w2[k]], who, var='time coordinate', time=t)
        ix = (k,) * len(sh)
        rec.dir([(z[0][ix], a[0][ix]), (z[1][ix], a[1][ix])], who, time=t)
        rec.add(COSINE, [c[0][ix], c[1][ix]], who, var='incidence', time=t)
        rec.add(TIME, [su[0][ix], su[1][ix]], who, var='sunrise utc', time=t)
        rec.add(TIME, [tst[0][(k,) * len(xs)], tst[1][(k,) * len(xs)]], who, var='true solar time', time=t)
    return pack(f), rec, meta
