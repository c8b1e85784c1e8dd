"""C33: results are values: their copies read as they do (lives of spec/copies.qnt)."""
import copy
import datetime as dtm
import pickle
import subprocess
import sys
import zlib
import zoneinfo
from pathlib import Path

import numpy as np
import pandas as pd
import pytz

from .. import access, impl
from ..par import pmap
from ..quint import ERR, fx, pack, simulate, validate
from ..rel import raw
from .c21 import LATS, LONS, TIMES

ZONES = [None, zoneinfo.ZoneInfo('Europe/Madrid'), pytz.timezone('America/New_York'), dtm.timezone(dtm.timedelta(hours=5, minutes=30))]
WAYS = ['copy.copy', 'copy.deepcopy', *(f'pickle protocol {k}' for k in range(2, 6)), 'another process and back', 'deepcopy in a list']
ROOT = str(Path(__file__).resolve().parents[2])
ECHO = ['algorithm', 'engine', 'has_refraction', 'usecase', 'timezone']


def make(uc, alg, eng, refr, zone, t, y, x):
    ts = pd.DatetimeIndex(TIMES[t].astype('datetime64[ns]'))
    if zone:
        ts = ts.tz_localize('UTC').tz_convert(ZONES[zone])
    return impl.call(impl.UC[uc], ts, LATS[y].copy(), LONS[x].copy(), impl.ALGS[alg], ['numpy', 'numexpr'][eng], bool(refr))


def labels(x):
    """everything that an accessor gave but the values"""
    d = [type(x).__name__, str(getattr(x, 'dtype', '')), str(getattr(x, 'tz', '')), str(getattr(x, 'name', ''))]
    if hasattr(x, 'coords'):
        d += [x.dims, sorted((str(k), str(v)) for k, v in x.attrs.items()),
              sorted((k, c.dims, str(c.dtype), c.values.tobytes()) for k, c in x.coords.items())]
    return zlib.crc32(repr(d).encode()) % 100000 * 10**18


def look(res, acc, arg):
    """[kind, number of values, values.., labels]"""
    try:
        if acc >= len(access.NAMES):
            if acc == len(access.NAMES):
                v, n = [], zlib.crc32(repr([(k, type(getattr(res, k)).__name__, getattr(res, k)) for k in ECHO]).encode()) % 100000 * 10**18
            else:
                lst = res.local_standard_time
                v, n = access.values(lst), labels(lst)
        else:
            a = access.fetch(res, acc, arg)
            v, n = access.values(a), labels(a)
    except Exception:
        v = None
    if v is None:
        return [0, 1, ERR]
    kind = int(any(isinstance(a, int) for a in v))
    f = [len(v)] + [raw(a) if kind else fx(a) for a in v[:30]] + [n]
    return [kind, len(f)] + f


class Elsewhere:
    """another process, started afresh, that reads results and sends them back"""

    def __init__(self):
        self.p = subprocess.Popen([sys.executable, '-B', '-c', f'import sys; sys.path.insert(0, {ROOT!r}); from vf.props.c33 import serve; serve()'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, what):
        pickle.dump(what, self.p.stdin)
        self.p.stdin.flush()
        return pickle.load(self.p.stdout)


_elsewhere = None


def ask(*what):
    global _elsewhere
    try:
        _elsewhere = _elsewhere or Elsewhere()
        return _elsewhere.ask(what)
    except (OSError, EOFError):
        _elsewhere = None
        raise


def serve():
    """answers: None if it cannot be done"""
    impl.sunwhere()
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        try:
            data, acc, arg = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        try:
            res = pickle.loads(data)
            ans = pickle.dumps(res) if acc is None else look(res, acc, arg)
        except Exception:
            ans = None
        pickle.dump(ans, out)
        out.flush()


def copied(res, way):
    if way == 0:
        return copy.copy(res)
    if way == 1:
        return copy.deepcopy(res)
    if way < 6:
        return pickle.loads(pickle.dumps(res, protocol=way))
    if way == 6:
        return pickle.loads(ask(pickle.dumps(res), None, None))
    a, b = copy.deepcopy([res, res])
    assert a is b
    return a


def scribble(res):
    for acc in range(len(access.NAMES)):
        try:
            x = access.fetch(res, acc, 0)
            if isinstance(x.values, np.ndarray):
                x.values[...] = np.datetime64('1234-05-06') if x.dtype.kind == 'M' else -77
            x.attrs['units'] = 'scribbled'
        except Exception:
            pass
    for k in ('_zenith', 'a_new_attribute'):        # and gives it attributes of its own
        try:
            setattr(res, 'a_new_attribute', k)
        except Exception:
            pass


def life(events):
    objs, reqs = [None] * 6, [None] * 6
    out, names, known = [], [], set()
    heaps, fresh = [None] * 6, 0
    for e in events:
        tag, v = e['tag'], e['value']
        if tag == 'Make':
            o, q = v['obj'], v['req']
            reqs[o] = tuple(q[k] for k in ('uc', 'alg', 'eng', 'refr', 'zone', 't', 'y', 'x'))
            objs[o] = make(*reqs[o])
            heaps[o], fresh = fresh, fresh + 1
            out += [1, o, *reqs[o], 0 if isinstance(objs[o], impl.Crash) else 1]
        elif tag == 'Copy':
            a, b, way = v['from_'], v['to_'], v['way']
            try:
                objs[b], ok = copied(objs[a], way), 1
            except Exception:
                objs[b], ok = None, 0
            reqs[b] = reqs[a]
            if way:
                heaps[b], fresh = fresh, fresh + 1
            else:
                heaps[b] = heaps[a]
            out += [2, a, b, way, ok]
        elif tag == 'Read':
            o, acc, arg = v['obj'], v['acc'], v['arg']
            key = (*reqs[o], acc, arg)
            if key not in known:
                known.add(key)
                out += [6, *key] + look(make(*reqs[o]), acc, arg)
                names.append('a result made for it')
            try:
                got = ask(pickle.dumps(objs[o]), acc, arg) if v['away'] else look(objs[o], acc, arg)
            except Exception:
                got = None
            out += [3, o, acc, arg] + (got or [0, 1, ERR])
        elif tag == 'Scribble':
            h = heaps[v['obj']]
            scribble(objs[v['obj']])
            for k in range(6):
                if heaps[k] == h:
                    objs[k] = reqs[k] = heaps[k] = None
            out += [4, v['obj']]
        else:
            k = v['obj']
            objs[k] = reqs[k] = heaps[k] = None
            out += [5, k]
        if tag == 'Copy':
            names.append(f'copy of {v["from_"]} in {v["to_"]} by {WAYS[v["way"]]}')
        elif tag == 'Read':
            a = v['acc']
            what = access.label(a, v['arg']) if a < len(access.NAMES) else ['what was requested', 'local_standard_time'][a - len(access.NAMES)]
            names.append(f'read {v["obj"]} {what}' + (' in another process' if v['away'] else ''))
        else:
            names.append(f'{tag} {v}')
    return pack([len(names)] + out), names


def lives(ctx, count, k):
    from concurrent.futures import ThreadPoolExecutor

    def some(s):
        return simulate(ctx.work, 'copies', 'copies', 41 * (count // 8) + 41, ctx.sub(k + s), invariant='sound')
    out = []
    with ThreadPoolExecutor(8) as ex:
        for tr in ex.map(some, range(8)):
            cur = []
            for st in tr[1:]:
                if st['age'] == 0:
                    out.append(cur)
                    cur = []
                else:
                    cur.append(st['last'])
    return out


def run(ctx):
    out = pmap(life, [(x,) for x in lives(ctx, ctx.n(120, 1600), 330)])
    ctx.evaluations, fails = validate(ctx.work, 'conf_copies', [p for p, _ in out], csize=3)
    ctx.traces, ctx.distinct = len(out), {n for _, ns in out for n in ns if n.startswith('read')}
    ctx.count('events', sum(len(n) for _, n in out))
    for w in WAYS:
        ctx.count('copies by ' + w, sum(x.endswith(' by ' + w) for _, n in out for x in n))
    ctx.count('reads in another process', sum(x.endswith('another process') for _, n in out for x in n))
    ctx.samples = [n[:10] for _, n in out[:3]]
    ctx.rule = ('lives of results and of their copies (spec/copies.qnt): results of all use cases, algorithms, engines and kinds of time zone are '
                'copied in 8 ways, copies are copied, read, written in and dropped, in every order, some in another process; each '
                'read is compared with that of a result made for it')
    for f in fails:
        names = out[f['rec']][1]
        k = f['at'][0]
        ctx.violation(f['clause'], event=names[k], after=[x for x in names[max(0, k - 12):k] if x != 'a result made for it'],
                      observed=f['got'], expected=f['want'])
