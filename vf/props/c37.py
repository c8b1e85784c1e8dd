"""C37: loads at once (rushes of spec/rush.qnt; the protocol of spec/loads.qnt is checked exhaustively by TLC).
Nothing is sent, and everything is written in a scratch directory. The loads run in threads, line by line, as the
schedule says; those of other processes are threads that the library takes for other processes."""
import os
import shutil
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pandas as pd

from .. import threads
from ..par import pmap
from ..quint import pack, simulate, validate, verify
from .c25 import Answer, SITES, asked, horizons, install, reply, said
from .c35 import read_parquet, to_parquet

KEYS = [(2023, 0), (2023, 1), (2024, 0), (1999, 1)]


class Net:
    """stands for the network: it answers the first three lines of what is asked for"""

    def __init__(self):
        self.sent, self.fail_at, self.refused, self.lock = {}, {}, set(), threading.Lock()

    def request(self, method, url, fields=None, **kw):
        if fields:
            import urllib.parse
            url += ('&' if '?' in url else '?') + urllib.parse.urlencode(fields)
        me = threading.get_ident()
        self.sent[me] = n = self.sent.get(me, 0) + 1
        if n == self.fail_at.get(me, 0):
            self.refused.add(me)
            raise OSError('the network is down')
        start, stop, step, lon, lat, _ = asked(url)
        site = [i for i, (x, y) in enumerate(SITES) if (round(x * 1e6), round(y * 1e6)) == (lon, lat)]
        return Answer(reply([said(60 * t, site[0]) for t in list(range(start, stop + 1, step))[:3]] if site else []))

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def clear(self):
        pass


def right(df, key):
    year, site = KEYS[key]
    try:
        t = df.index.values.astype('datetime64[s]').astype('int64').tolist()
        want = [int(np.datetime64(f'{year}-{m:02d}-01', 's').astype('int64')) + 720 * j for m in range(1, 13) for j in range(3)]
        ok = t == want
        for k, x in enumerate(t):
            el = (x // 60 * 7919 + site * 17) % 180000001 - 90000000
            ok = ok and abs(float(df['zenith'].iloc[k]) - (90 - el / 1e6)) < 1e-9
        return [len(df), int(ok)]
    except Exception:
        return [len(df) if hasattr(df, '__len__') else 0, 0]


def one(r):
    m = horizons()
    pd.DataFrame.to_parquet, pd.read_parquet = to_parquet, read_parquet
    net = Net()
    install(net)
    pids, real = {}, os.getpid
    os.getpid = lambda: pids.get(threading.get_ident(), real())
    top, old = tempfile.mkdtemp(prefix='vf-rush-'), os.getcwd()
    os.chdir(top)
    got = [None] * len(r['loads'])
    try:
        if r['stored']:         # a load before failed on the way
            net.fail_at[threading.get_ident()] = r['stored']
            try:
                m.load_jpl_ephemeris(KEYS[r['loads'][0]['key']][0], *SITES[KEYS[r['loads'][0]['key']][1]])
            except Exception:
                pass
        first = threading.get_ident()

        def loader(k, q):
            def go():
                me = threading.get_ident()
                if q['process']:
                    pids[me] = 400000 + k
                net.sent[me] = 0
                net.fail_at[me] = q['failAt']
                net.refused.discard(me)
                year, site = KEYS[q['key']]
                try:
                    res = [0] + right(m.load_jpl_ephemeris(year, *SITES[site]), q['key'])
                except Exception as exc:
                    res = [1, 0, 0, repr(exc)]
                got[k] = [int(me in net.refused)] + res
            return go
        sched = [(q['th'], q['lines']) for q in r['sched']]
        sw, ended = threads.run([loader(k, q) for k, q in enumerate(r['loads'])], sched, 90., {to_parquet.__code__})
        f, errors = [len(got)], []
        for q, g in zip(r['loads'], got):
            g = g or [0, 1, 0, 0, 'it does not end']
            errors += g[4:]
            f += [q['key'], *g[:4]]
        keys = sorted({q['key'] for q in r['loads']})
        f.append(len(keys))
        net.fail_at.clear()
        torn = 0
        for name in sorted(os.listdir('data')) if os.path.isdir('data') else []:
            if name.endswith('.txt'):
                text = open(os.path.join('data', name), newline='').read()
                torn += not ('$$SOE\n' in text and '$$EOE\n' in text)
        for key in keys:
            net.sent[first] = 0
            year, site = KEYS[key]
            try:
                x = [0] + right(m.load_jpl_ephemeris(year, *SITES[site]), key)
            except Exception as exc:
                x = [1, 0, 0]
                errors.append(repr(exc))
            f += [key, net.sent[first], *x]
        f.append(torn)
    finally:
        os.chdir(old)
        os.getpid = real
        shutil.rmtree(top, ignore_errors=True)
    return pack(f), dict(loads=str(r['loads']), stored=r['stored'], errors=errors[:3]), sw, ended


def run(ctx):
    with ThreadPoolExecutor(9) as ex:
        check = ex.submit(verify, ctx.work, 'loads', f'loads{ctx.n(2, 3)}', 'sound', timeout=880)
        per = ctx.n(40, 400)
        trs = list(ex.map(lambda s: simulate(ctx.work, 'rush', 'rush', 40 * per, ctx.sub(370 + s), invariant='sane', mbt=False), range(8)))
        d, _ = check.result()
    ctx.count('states of the protocol checked exhaustively by TLC', d)
    rs = [s['r'] for tr in trs for s, t in zip(tr, tr[1:]) if t['age'] % 40 == 1 and s['age']]
    out = pmap(one, [(r,) for r in rs])
    for r in rs:
        ctx.count(f'{len(r["loads"])} loads, of {len({q["key"] for q in r["loads"]})} ephemerides')
        ctx.count('loads of other processes', sum(q['process'] for q in r['loads']))
        ctx.count('refused by the network', sum(q['failAt'] > 0 for q in r['loads']))
    ctx.count('switches between loads', sum(o[2] for o in out))
    ctx.evaluations, fails = validate(ctx.work, 'conf_rush', [o[0] for o in out], csize=12)
    ctx.traces, ctx.distinct = len(out), {str(r) for r in rs}
    ctx.samples = [dict(**o[1], schedule=str(r['sched'])[:300]) for r, o in list(zip(rs, out))[:3]]
    ctx.rule = ('TLC checks the protocol of spec/loads.qnt; loads at once, in threads and as if in several processes, are executed line by line under '
                'schedules of spec/rush.qnt; what they give, and what a later load gives, is held against the specification')
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=f['at'], got=f['got'], want=f['want'], schedule=str(rs[f['rec']]['sched'])[:600])
