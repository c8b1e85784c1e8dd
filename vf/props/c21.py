"""C21: no hidden state, no aliasing (sessions of spec/session.qnt)."""
import multiprocessing as mp

import numpy as np
import pandas as pd

from .. import access, impl
from ..par import pmap
from ..quint import ERR, NPROC, fx, pack, simulate, validate, verify
from ..rel import raw

# what contents stand for: some differ in the last element only, or in the order, or hold missing values
T0 = np.array(['2023-02-28T10:11:12', '2024-06-30T03:30:00', '1999-12-31T23:59:59'], dtype='datetime64[s]')
TIMES = [T0, T0 + 3600 * 5, T0[::-1].copy(), T0 + np.array([0, 0, 86400]), T0 + 86400 * 365 * 7,
         np.array(['2023-02-28T10:11:12', 'NaT', '1999-12-31T23:59:59'], dtype='datetime64[s]'), T0 + np.array([1, 0, 0]), T0 - 86400 * 14000,
         T0 + np.array([0, 86400 * 40, 0]), T0[[1, 0, 2]]]
Y0 = np.array([37.5, -12.25, 66.])
LATS = [Y0, Y0 + 1., Y0[::-1].copy(), np.array([37.5, -12.25, -66.]), np.array([37.5, -12.25, np.nan]), np.array([-37.5, 12.25, 66.]),
        np.array([90., 0., -90.]), np.array([37.75, -12.25, 66.]), np.array([37.5, -12.25 + 2**-12, 66.]), Y0[[1, 0, 2]]]
X0 = np.array([-4.5, 120., 33.25])
LONS = [X0, X0 + 1., X0[::-1].copy(), np.array([-4.5, 120., -33.25]), np.array([-4.5, np.nan, 33.25]), -X0, np.array([-180., 179.5, 0.]),
        np.array([-4.5, 120.25, 33.25]), np.array([-4.5, 120. + 2**-12, 33.25]), X0[[1, 0, 2]]]
TABLE = [TIMES, LATS, LONS]


class Buffers:
    """three buffers of each class, of several types; always the same objects"""

    def __init__(self):
        self.b = [[TIMES[0].astype('datetime64[ns]'), TIMES[1].copy(), list(TIMES[2])],
                  [LATS[0].copy(), LATS[1].astype(np.float32), [float(y) for y in LATS[2]]],
                  [LONS[0].copy(), LONS[1].astype(np.float32), [float(y) for y in LONS[2]]]]

    def write(self, cls, k, content):
        b, new = self.b[cls][k], TABLE[cls][content]
        if isinstance(b, list):
            b[:] = list(new) if cls == 0 else [float(y) for y in new]
        else:
            b[...] = new

    def held(self):
        out = []
        for cls in range(3):
            for b in self.b[cls]:
                got = -1
                try:
                    a = np.array(b, dtype='datetime64[ns]' if cls == 0 else np.float64)
                    for c, w in enumerate(TABLE[cls]):
                        w = w.astype('datetime64[ns]' if cls == 0 else np.float64)
                        if a.shape == w.shape and (np.isnat(a) == np.isnat(w) if cls == 0 else np.isnan(a) == np.isnan(w)).all() \
                                and all(x == y or x != x for x, y in zip(a, w)):
                            got = c
                            break
                except Exception:
                    pass
                out.append(got)
        return out


def make(uc, alg, eng, refr, t, y, x):
    if uc < 3:
        return impl.call(impl.UC[uc], t, y, x, impl.ALGS[alg], ['numpy', 'numexpr'][eng], bool(refr))
    try:
        from sunwhere.utils import datetime as dtm
        return (dtm.true_solar_time if uc == 3 else dtm.universal_time_coordinated)(t, x)
    except Exception as exc:
        return impl.Crash(exc)


def look(res, uc, acc, arg):
    """[kind, number of values, values..]"""
    try:
        v = access.values(res if uc >= 3 else access.fetch(res, acc, arg))
    except Exception:
        v = None
    if v is None:
        return [0, 1, ERR]
    kind = int(any(isinstance(a, int) for a in v))
    f = [len(v)] + [raw(a) if kind else fx(a) for a in v[:30]]
    return [kind, len(f)] + f


def scribble(res, uc):
    things = [res] if uc >= 3 else []
    if uc < 3:
        for acc in range(len(access.NAMES)):
            try:
                things.append(access.fetch(res, acc, 0))
            except Exception:
                pass
    for x in things:
        for a in [x] + [getattr(x, 'values', None)] + ([c.values for c in x.coords.values()] if hasattr(x, 'coords') else []):
            if isinstance(a, np.ndarray):
                try:
                    a[...] = np.datetime64('1234-05-06') if a.dtype.kind == 'M' else -77
                except Exception:
                    pass
        if hasattr(x, 'attrs'):
            try:
                x.attrs['units'] = 'scribbled'
                x.attrs.clear()
            except Exception:
                pass


def refuse(flaw, b):
    sw = impl.sunwhere()
    t, y, x = b.b[0][flaw % 3], b.b[1][flaw % 3], b.b[2][flaw % 3]
    try:
        [lambda: sw.sites(t, y, x, algorithm='psaa'), lambda: sw.regular_grid(t, y, x, engine='fortran'),
         lambda: sw.sites(t, [200.] * 3, x), lambda: sw.transect(t, y, [1., 2.]),
         lambda: sw.regular_grid(t, y, x).airmass('nobody'), lambda: sw.transect(t[:2], y, x)][flaw]()
        return 0
    except Exception:
        return 1


def pristine(key):
    uc, alg, eng, refr, t, y, x, acc, arg = key
    Y = LATS[0] if y < 0 else LATS[y]
    return look(make(uc, alg, eng, refr, TIMES[t].copy(), Y.copy(), LONS[x].copy()), uc, max(acc, 0), max(arg, 0))


def session(events, alone):
    b = Buffers()
    objs, ucs = [None] * 4, [0] * 4
    out, names, n = [], [], 0
    for e in events:
        tag, v = e['tag'], e['value']
        if tag == 'Make':
            o = v['obj']
            ucs[o] = v['uc']
            objs[o] = make(v['uc'], v['alg'], v['eng'], v['refr'], b.b[0][v['tb']], b.b[1][v['yb']], b.b[2][v['xb']])
            out += [1] + b.held() + [v[k] for k in ('obj', 'uc', 'alg', 'eng', 'refr', 'tb', 'yb', 'xb')]
            out.append(0 if isinstance(objs[o], impl.Crash) else 1)
        elif tag == 'Overwrite':
            b.write(v['cls'], v['buf'], v['content'])
            out += [2] + b.held() + [v['cls'], v['buf'], v['content']]
        elif tag == 'Read':
            if e['key'] in alone:
                out += [6] + [0] * 9 + list(e['full']) + alone[e['key']]
                n += 1
                names.append('pristine')
            got = look(objs[v['obj']], ucs[v['obj']], v['acc'], v['arg'])
            out += [3] + b.held() + [v['obj'], v['acc'], v['arg']] + got
        elif tag == 'Scribble':
            scribble(objs[v['obj']], ucs[v['obj']])
            objs[v['obj']] = None
            out += [4] + b.held() + [v['obj']]
        else:
            r = refuse(v['flaw'], b)
            out += [5] + b.held() + [v['flaw'], r]
        n += 1
        names.append(f'{tag} {v}')
    return pack([n] + out), names


def sessions(ctx, count, k):
    from concurrent.futures import ThreadPoolExecutor

    def some(s):
        return simulate(ctx.work, 'session', 'session', 31 * (count // 8) + 30, ctx.sub(k + s), invariant='noAliasing')
    def plans(_):
        return simulate(ctx.work, 'session', 'session', 63 * 81, 1, invariant='noAliasing', step='stepPlanned')
    out = []
    with ThreadPoolExecutor(8) as ex:
        for tr in [*ex.map(some, range(8)), plans(0)]:
            cur = []
            for i in range(1, len(tr)):
                a, st = tr[i - 1], tr[i]
                if st['age'] == 0:
                    out.append(cur)
                    cur = []
                    continue
                e = dict(st['last'])
                if e['tag'] == 'Read':
                    c = a['s']['objs'][e['value']['obj']]
                    v = e['value']
                    full = (c['uc'], c['alg'], c['eng'], c['refr'], c['t'], c['y'], c['x'], v['acc'], v['arg'])
                    e['full'] = full
                    e['key'] = full if c['uc'] < 3 else full[:5] + (-1, full[6], -1, -1)
                cur.append(e)
    return out


def run(ctx):
    d, _ = verify(ctx.work, 'session_all', 'session_all', 'kept')
    ctx.count('states of session_all checked exhaustively by TLC', d)
    ss = sessions(ctx, ctx.n(96, 1200), 210)
    keys = sorted({e['key'] for s in ss for e in s if 'key' in e})
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:      # each read in a process of its own
        alone = dict(zip(keys, pool.map(pristine, keys, chunksize=1)))
    out = pmap(session, [(s, alone) for s in ss])
    ctx.evaluations, fails = validate(ctx.work, 'conf_session', [p for p, _ in out], csize=3)
    ctx.traces, ctx.distinct = len(out), {str(n) for _, n in out}
    ctx.count('events', sum(len(n) for _, n in out))
    ctx.count('reads in a process of their own', len(keys))
    ctx.samples = [n[:10] for _, n in out[:3]]
    ctx.rule = ('sessions of spec/session.qnt, random and planned (every call followed by the same call with one argument changed): calls on buffers that are overwritten in between, repeated calls, reads, writes in '
                'what was returned, calls that raise; each read is compared with the same read in a process of its own')
    for f in fails:
        names = out[f['rec']][1]
        k = f['at'][0]
        ctx.violation(f['clause'], event=names[k], after=[x for x in names[max(0, k - 8):k] if x != 'pristine'],
                      observed=f['got'], expected=f['want'])
