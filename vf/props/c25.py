"""C25: JPL Horizons (spec/jpl.qnt). Nothing is sent: urllib3 is replaced by a stand-in."""
import os
import pickle
import re
import tempfile
import urllib.parse
from datetime import datetime, timedelta

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import ERR, fx, pack, simulate, validate

MARKS = [('*', 'm'), (' ', 'm'), ('*', ' '), (' ', ' '), ('C', 'm'), ('N', 'm'), ('A', 'm'), ('*', 'r'), ('*', 't'), (' ', 's'), ('A', 's'), ('N', ' ')]
OPTIONS = dict(COMMAND='10', MAKE_EPHEM='YES', EPHEM_TYPE='OBSERVER', CENTER='coord@399', QUANTITIES='4,20', COORD_TYPE='GEODETIC',
               ANG_FORMAT='DEG', APPARENT='AIRLESS', RANGE_UNITS='AU', SUPPRESS_RANGE_RATE='YES', CSV_FORMAT='NO', CAL_FORMAT='BOTH',
               TIME_DIGITS='SECONDS', EXTRA_PREC='NO', CAL_TYPE='M', SKIP_DAYLT='NO', R_T_S_ONLY='NO')
SITES = [(-3.822, 36.949), (120.5, -45.25), (-3.822002, 36.949001), (3.822, -36.949)]
EPOCH = datetime(1970, 1, 1)
SOE, EOE = '$$SOE', '$$EOE'


def line(t, az, el, r, mark):
    """a line of a reply: time (s), angles in 1e-6 degrees, distance in 1e-12 au"""
    d = EPOCH + timedelta(seconds=t)
    jd = t / 86400 + 2440587.5
    a, b = MARKS[mark]
    sg = '-' if el < 0 else ''
    e = f'{sg}{abs(el) // 10**6}.{abs(el) % 10**6:06d}'
    return (f' {d:%Y}-{"Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[d.month - 1]}-{d:%d %H:%M:%S} {jd:17.9f} {a}{b} '
            f'{az // 10**6:4d}.{az % 10**6:06d} {e:>11s} {r // 10**12:4d}.{r % 10**12:012d}')


def reply(lines):
    head = ['*' * 80, ' Revised: July 31, 2013                  Sun                                 10', ' elevation, azimuth $$SOE', '*' * 80,
            ' Date__(UT)__HR:MN:SS  Date_________JDUT     Azi_(a-app)_Elev            delta', '*' * 80, SOE]
    tail = [EOE, '*' * 80, 'Column meaning:', ' 2024-Jan-01 00:00:00 2460310.500000000 *m  100.0000000  -10.0000000  0.98330000000000', '$$SOE / $$EOE', '']
    return '\n'.join(head + lines + tail)


class Answer:
    def __init__(self, text):
        self.data = text.encode()
        self.status = 200


class Net:
    """stands for the network"""

    def __init__(self, answer, fail_at=0, error=None):
        self.answer, self.fail_at, self.error, self.sent = answer, fail_at, error, []

    def request(self, method, url, fields=None, **kw):
        if fields:
            url += ('&' if '?' in url else '?') + urllib.parse.urlencode(fields)
        self.sent.append((method, url))
        if len(self.sent) == self.fail_at:
            if self.error is not None:
                return Answer(self.error)
            raise OSError('the network is down')
        return Answer(self.answer(url))

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def clear(self):
        pass


def install(net):
    import urllib3
    urllib3.PoolManager = net
    urllib3.request = net.request


def options(url):
    base, _, q = url.partition('?')
    o = {}
    for kv in q.split('&'):
        k, _, v = kv.partition('=')
        o[k] = urllib.parse.unquote_plus(v).strip("'")
    return base, o


def minutes(s):
    d = pd.Timestamp(s)
    return int(d.value // 60000000000)


def asked(url):
    """start, stop, step, lon6, lat6, elevation in metres"""
    _, o = options(url)
    out = []
    for get in (lambda: minutes(o['START_TIME']), lambda: minutes(o['STOP_TIME']),
                lambda: int(re.fullmatch(r'(\d+)\s*(m|min|MINUTES?|minutes?)', o['STEP_SIZE'])[1]),
                lambda: round(float(o['SITE_COORD'].split(',')[0]) * 1e6), lambda: round(float(o['SITE_COORD'].split(',')[1]) * 1e6),
                lambda: round(float(o['SITE_COORD'].split(',')[2]) * 1e3)):
        try:
            out.append(get())
        except Exception:
            out.append(ERR)
    return out


TEXT = reply([line(1704067200, 123456789, -12345678, 983300000001, 0)])


def horizons():
    impl.sunwhere()
    from sunwhere.utils import jpl_horizons
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass
    return jpl_horizons


# what Horizons says instead of an ephemeris
ERRORS = ['{"signature":{"source":"NASA/JPL Horizons API","version":"1.2"},"error":"Horizons is not available"}', '',
          'API VERSION: 1.2\nAPI SOURCE: NASA/JPL Horizons API\n\n No ephemeris for target "Sun" after A.D. 9999-DEC-30 12:00:00.0000 UT\n',
          '<html><body><h1>503 Service Unavailable</h1>\n</body></html>\n']


def one_error(a, i):
    m = horizons()
    install(Net(lambda url: ERRORS[i % len(ERRORS)]))
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, 'x.txt')
        try:
            m.get_jpl_ephemeris(name, pd.Timestamp(a['start'] * 60, unit='s'), pd.Timestamp(a['stop'] * 60, unit='s'), a['lon6'] / 1e6, a['lat6'] / 1e6,
                                step_size=a['step'])
            rc = 0
        except Exception:
            rc = 2
        return pack([4, rc, int(os.path.exists(name))]), dict(asked=a, answered=ERRORS[i % len(ERRORS)])


def one_ask(a, i):
    m = horizons()
    net = Net(lambda url: TEXT)
    install(net)
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, 'deep', 'er', 'x.txt') if i % 2 else os.path.join(d, 'x.txt')
        st, sp = [pd.Timestamp(x * 60, unit='s') for x in (a['start'], a['stop'])]
        if i % 3 == 1:
            st, sp = str(st), sp.to_pydatetime()
        if i % 3 == 2:
            st, sp = st.to_datetime64(), f'{sp:%d %b %Y %H:%M}'
        try:
            kw = {} if a['elev'] == 0 else dict(site_elev=a['elev'] / 1e3)
            out = m.get_jpl_ephemeris(name, st, sp, a['lon6'] / 1e6, a['lat6'] / 1e6, step_size=a['step'], **kw)
            rc = 0 if os.path.realpath(out) == os.path.realpath(name) else 2
        except ValueError:
            rc = 1
        except Exception:
            rc = 2
        f = [1, *[a[k] for k in ('start', 'stop', 'step', 'lon6', 'lat6', 'elev')], rc, len(net.sent)]
        url = ''
        if len(net.sent) == 1:
            meth, url = net.sent[0]
            base, o = options(url)
            codes = [int(o.get(k) == v) for k, v in OPTIONS.items()]
            codes += [int(meth == 'GET'), int(base == 'https://ssd.jpl.nasa.gov/api/horizons.api'), int(o.get('format') == 'text')]
            f += asked(url) + [len(codes)] + codes
            f.append(int(os.path.exists(name) and open(name, newline='').read() == TEXT))
    return pack(f), dict(asked=a, url=url)


def cells(df, rows):
    out = []
    for k in rows:
        try:
            x = df.iloc[k]
            t = df.index[k]
            out += [int(t.value // 10**9) if t.value % 10**9 == 0 else ERR, fx(float(x['azimuth'])), fx(float(x['zenith'])), fx(float(x['ecf']))]
        except Exception:
            out += [ERR] * 4
    return out


def utc(df):
    return int(str(getattr(df.index, 'tz', None)) == 'UTC')


def one_reply(ls):
    m = horizons()
    text = reply([line(**x) for x in ls])
    f = [2, len(ls)]
    for x in ls:
        f += [x[k] for k in ('t', 'az', 'el', 'r', 'mark')]
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, 'x.txt')
        open(name, 'w').write(text)
        try:
            df = m.read_jpl_ephemeris_file(name)
            f += [0, len(df), utc(df)] + cells(df, range(len(ls)))
        except Exception:
            f += [2, 0, 0]
    return pack(f), dict(reply=text.splitlines()[7:7 + len(ls)])


def said(t, site):
    m = t // 60
    return line(t, (m * 123457 + site * 1000003) % 360000000, (m * 7919 + site * 17) % 180000001 - 90000000,
                983000000000 + (m * 104729) % 34000000000, m % 12)


def answer(url):
    start, stop, step, lon, lat, _ = asked(url)
    site = [i for i, (x, y) in enumerate(SITES) if (round(x * 1e6), round(y * 1e6)) == (lon, lat)]
    if ERR in (start, stop, step) or not site:
        return reply([])
    return reply([said(60 * t, site[0]) for t in range(start, stop + 1, step)])


def history(loads):
    m = horizons()
    pd.DataFrame.to_parquet = lambda self, path=None, *a, **k: pickle.dump(self, open(path, 'wb'))     # no parquet library here
    pd.read_parquet = lambda path, *a, **k: pickle.load(open(path, 'rb'))
    f = [3, len(loads)]
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            for e in loads:
                net = Net(answer, e['failAt'], ERRORS[e['failAt'] % len(ERRORS)] if e['error'] else None)
                install(net)
                lon, lat = SITES[e['site']]
                try:
                    df = m.load_jpl_ephemeris(e['year']) if e['site'] == 0 else m.load_jpl_ephemeris(e['year'], lon, lat)
                    t = df.index.values.astype('datetime64[s]').astype('int64')
                    ok = int(len(t) > 1 and (np.diff(t) == 720).all())
                    place = int((np.abs(df['site_lon'] - lon) < 1e-9).all() and (np.abs(df['site_lat'] - lat) < 1e-9).all())
                    rows = [0, len(df) // 3, len(df) // 2, len(df) - 1]
                    f += [e['year'], e['site'], e['failAt'], 0, len(net.sent), len(df), int(t[0]), int(t[-1]), ok, place, utc(df), len(rows)]
                    f += cells(df, rows)
                except Exception:
                    f += [e['year'], e['site'], e['failAt'], 2, len(net.sent), 0, 0, 0, 0, 0, 0, 0]
        finally:
            os.chdir(old)
    return pack(f), dict(loads=loads)


def run(ctx):
    def beh(step, n, k):
        out = []
        for s in range(4):
            out += simulate(ctx.work, 'jpl', 'jpl', n // 4, ctx.sub(k + s), step=step, invariant='kept and askSane')[1:]
        return out
    asks = [s['ask'] for s in beh('stepAsk', ctx.n(600, 8000), 250)]
    replies = [s['reply'] for s in beh('stepReply', ctx.n(600, 8000), 254)]
    ld = [s['event'] for s in beh('stepLoad', ctx.n(96, 480), 258)]
    hist = [ld[i:i + 6] for i in range(0, len(ld), 6)]
    out = pmap(one_ask, list(zip(asks, range(len(asks))))) + pmap(one_reply, [(x,) for x in replies]) + pmap(history, [(h,) for h in hist])
    out += pmap(one_error, [(a, i) for i, a in enumerate(asks[:ctx.n(40, 400)])])
    ctx.count('requests', len(asks))
    ctx.count('replies', len(replies))
    ctx.count('histories of six loads', len(hist))
    ctx.evaluations, fails = validate(ctx.work, 'conf_jpl', [p for p, _ in out], csize=10)
    ctx.traces, ctx.distinct = len(out), {str(i) for _, i in out}
    ctx.samples = [out[0][1], out[len(asks)][1], out[len(asks) + len(replies)][1]]
    ctx.rule = ('requests, replies and histories of loads of spec/jpl.qnt, with stand-ins for the network (which also fails, or replies with an error) and for the '
                'parquet library; what is sent, stored and read is held against spec/jpl_rules.qnt')
    for f in fails:
        ctx.violation(f['clause'], at=f['at'], got=f['got'], want=f['want'], **out[f['rec']][1])
