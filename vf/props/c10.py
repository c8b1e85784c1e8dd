"""C10: ill-formed requests are rejected, well-formed ones are served."""
import numpy as np

from .. import impl
from ..par import pmap
from ..quint import pack, simulate, validate, verify

ALG = impl.ALGS + ['spencer', '']
ENG = ['numpy', 'numexpr', 'fortran']
KEYS = ['uc', 'alg', 'eng', 'nt', 'ny', 'nx', 'yv', 'xv', 'pos', 'form']
LAT = [None, None, np.nan, np.nextafter(90., 91.), -90.25, np.inf]
LON = [None, None, np.nan, 180., np.nextafter(-180., -181.), 270., -np.inf]
BASE_Y = [37.1, -52.6, 12.25, 0., 81.5]
BASE_X = [-4.5, 151.2, -120.75, 0., 99.]
EDGE_Y = [90., -90., 90., -90., 90.]
EDGE_X = [-180., 179.99999999, -180., 179.5, -180.]


def coords(n, base, edge, special, v, pos, form):
    m = {-1: 4, -2: 0, 0: 1}.get(n, n)
    x = list((edge if v == 1 else base)[:m])
    if v > 1:
        for i in range(m):
            if pos == 2 or i == (0 if pos == 0 else m - 1):
                x[i] = special[v]
    if n == -1:
        return np.array(x, dtype=float).reshape(2, 2)
    if n == 0:
        return [float, np.float64, lambda y: y, np.array][form](x[0])
    if form == 3 and v in (1, 3, 4):
        form = 0                               # not the same number in single precision
    return [np.array, list, tuple, lambda y: np.array(y, dtype=np.float32)][form](x)


def instants(n):
    m = {-1: 4, -2: 0, 0: 1}.get(n, n)
    t = np.datetime64('2021-03-20T09:37:00', 's') + 86399 * 31 * np.arange(m)
    return t.reshape(2, 2) if n == -1 else t[0] if n == 0 else t


def one(r):
    f = [r[k] for k in KEYS] + [int(ALG[r['alg']] in impl.sunwhere().SPA_ALGORITHMS)]
    try:
        res = getattr(impl.sunwhere(), impl.UC[r['uc']])(
            instants(r['nt']), coords(r['ny'], BASE_Y, EDGE_Y, LAT, r['yv'], r['pos'], r['form']),
            coords(r['nx'], BASE_X, EDGE_X, LON, r['xv'], r['pos'], r['form']),
            algorithm=ALG[r['alg']], engine=ENG[r['eng']])
        try:
            z = np.asarray(res.zenith.values)
            f += [0, z.ndim, *z.shape]
        except Exception:
            f += [0, -1]
        what = 'a result'
    except ValueError as exc:
        f += [1, 0]
        what = repr(exc)[:200]
    except Exception as exc:
        f += [2, 0]
        what = repr(exc)[:200]
    return pack(f), what


def run(ctx):
    reqs = []
    for init, step, n in (('initE', 'stepNames', 54), ('initE', 'stepSizes', 648), ('initE', 'stepValues', 504)):
        tr = simulate(ctx.work, 'request', 'request', n, 1, invariant='decided', init=init, step=step)[1:]
        assert len(tr) == n
        reqs += tr
        ctx.count('exhaustive ' + step, n)
    for step, n in (('stepNear', ctx.n(1500, 20000)), ('stepAny', ctx.n(500, 8000))):
        for s in range(4):
            tr = simulate(ctx.work, 'request', 'request', n // 4, ctx.sub(60 + s), invariant='decided',
                          init='initAny' if step == 'stepAny' else 'initE', step=step)[1:]
            reqs += tr
            ctx.count('random ' + step, len(tr))
    ctx.level = 'model_checking'
    d, _ = verify(ctx.work, 'request_all', 'request_all', 'decided', timeout=800)
    ctx.count('states checked exhaustively by TLC', d)
    seen, rs = set(), []
    for st in reqs:
        key = tuple(st['r'][k] for k in KEYS)
        if key not in seen:
            seen.add(key)
            rs.append(st['r'])
    out = pmap(one, [(r,) for r in rs])
    n, fails = validate(ctx.work, 'conf_request', [p for p, _ in out], csize=25)
    ctx.evaluations, ctx.traces, ctx.distinct = n, len(rs), seen
    ctx.count('served', sum(st['phase']['tag'] == 'Served' for st in reqs))
    ctx.count('rejected', sum(st['phase']['tag'] == 'Rejected' for st in reqs))
    ctx.samples = [dict(request=rs[i], outcome=out[i][1]) for i in range(0, len(rs), max(1, len(rs) // 6))]
    ctx.rule = ('requests drafted by spec/request.qnt: all use case x algorithm x engine, all sizes, all coordinate classes, and '
                'random ones; outcome (result and shape, ValueError, other) compared with the admission rules')
    for f in fails:
        ctx.violation(f['clause'], request=rs[f['rec']], outcome=out[f['rec']][1])
