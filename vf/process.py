"""A process that lives a life of spec/env.qnt: operations on the standard input
(JSON), observations on the standard output (JSON)."""
import decimal
import gc
import hashlib
import io
import json
import locale
import logging
import os
import random
import sys
import threading
import time
import warnings

import numexpr as ne
import numpy as np
import pandas as pd
import xarray as xr

try:                                      # what the library depends on, before its own import is judged
    import loguru  # noqa: F401
    import importlib.metadata  # noqa: F401
except ImportError:
    pass

PD = ['display.precision', 'display.max_rows', 'display.width', 'mode.chained_assignment', 'compute.use_numexpr',
      'compute.use_bottleneck', 'display.float_format', 'display.date_dayfirst', 'display.date_yearfirst']
DIRS = []


def fingerprint():
    def xropts():
        return sorted((k, str(v)) for k, v in xr.get_options().items())
    env = {k: v for k, v in os.environ.items() if k != 'TZ'}
    p = np.random.get_state()
    out = [sorted(np.geterr().items()), [str(f) for f in warnings.filters], random.getstate(),
           (p[0], hashlib.sha1(p[1].tobytes()).hexdigest(), p[2:]), os.getcwd(), sorted(env.items()),
           [str(pd.get_option(k)) for k in PD], xropts(), sorted((k, str(v)) for k, v in np.get_printoptions().items()),
           str(decimal.getcontext()), (os.environ.get('TZ'), time.tzname, time.timezone), ne.get_num_threads(),
           (sys.getrecursionlimit(), gc.get_threshold(), gc.isenabled(), sys.getswitchinterval()), locale.setlocale(locale.LC_ALL),
           (logging.getLogger().level, logging.root.manager.disable, len(logging.getLogger().handlers)), len(OUT.getvalue()),
           sorted(sum((os.listdir(d) for d in DIRS), [])), sorted(t.name for t in threading.enumerate()), list(sys.path)]
    return [hashlib.sha1(repr(x).encode()).hexdigest() for x in out]


def change(i, v):
    if i == 0:
        np.seterr(**[BEGIN['err'], dict(all='ignore'), dict(divide='raise', over='raise', under='ignore', invalid='raise')][v])
    elif i == 1:
        warnings.filters[:] = BEGIN['filters']
        if v:
            warnings.simplefilter(['', 'ignore', 'error'][v], [Warning, Warning, RuntimeWarning][v])
    elif i == 2:
        random.seed(v)
    elif i == 3:
        np.random.seed(v)
    elif i == 4:
        os.chdir(DIRS[v])
    elif i == 5:
        os.environ['SUN'] = str(v)
    elif i == 6:
        pd.set_option('display.precision', 6 + v)
        pd.set_option('compute.use_numexpr', v != 1)
        pd.set_option('display.date_dayfirst', v == 1)
        pd.set_option('display.date_yearfirst', v == 2)
    elif i == 7:
        xr.set_options(keep_attrs=['default', True, False][v], display_width=80 + v)
    elif i == 8:
        np.set_printoptions(precision=8 - v)
    elif i == 9:
        decimal.getcontext().prec = 28 - 20 * v
    elif i == 10:
        os.environ['TZ'] = ['UTC', 'Asia/Kathmandu', 'America/St_Johns', 'Pacific/Kiritimati'][v]
        time.tzset()
    elif i == 11:
        ne.set_num_threads([8, 1, 3][v])
    elif i == 12:
        sys.setrecursionlimit(1000 + 500 * v)
        gc.set_threshold(700 - 500 * v, 10, 10)
    elif i == 13:
        locale.setlocale(locale.LC_ALL, ['C', 'C.UTF-8'][v])
    elif i == 14:
        logging.getLogger().setLevel([30, 10][v])
    elif i == 18:
        sys.path[:] = [p for p in sys.path if p != '/nowhere'] + ['/nowhere'] * v


FAILS = [lambda sw: sw.sites(['2024-01-01'], [91.], [0.]), lambda sw: sw.transect(['2024-01-01'], [1., 2.], [0., 1.]),
         lambda sw: sw.regular_grid(['2024-01-01'], [1., 2.], [0., 181.]), lambda sw: sw.sites(['2024-01-01'], [1.], [0.], algorithm='x'),
         lambda sw: sw.sites(['2024-01-01'], [1.], [0.], engine='x'), lambda sw: sw.sites(['2024-01-01'], [1.], [0.]).airmass('x'), lambda sw: sw.sites(['2024-01-01'], [1.], [0.]).sunset('x'),
         lambda sw: sw.regular_grid(['2024-01-01'], [1., 2.], [0.]).eth(1361., 'x')]


def main():
    from . import access, impl
    job = json.load(sys.stdin)
    DIRS.extend(job['dirs'])
    os.chdir(DIRS[job['dir']])
    warnings.showwarning = lambda *a, **k: None
    np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
    BEGIN.update(err=np.geterr(), filters=list(warnings.filters))
    table, now = {}, []

    def see():
        """the value of each setting: the one whose fingerprint it has"""
        f = fingerprint()
        return [v if f[i] == table[(i, v)] else -1 for i, v in enumerate(now)]
    f = fingerprint()
    now.extend([0] * len(f))
    table.update({(i, 0): x for i, x in enumerate(f)})
    ops, answers = [], []
    for kind, i, v in job['ops']:
        answer = None
        try:
            if kind == 0:
                change(i, v)
                now[i] = v
                table[(i, v)] = fingerprint()[i]
            elif kind == 1:
                answer = ask(access, impl, job['requests'][i])
            elif kind == 2:
                try:
                    FAILS[i](impl.sunwhere())
                    answer = 'served'
                except ValueError:
                    pass
            else:
                impl.sunwhere()
        except Exception as exc:
            answer = repr(exc)[:300]
        answers.append(answer)
        ops.append([kind, i, v] + see())
    REAL.write(json.dumps(dict(ops=ops, answers=answers)))


def ask(access, impl, q):
    if q['kind'] == 'clock':
        from sunwhere.utils import datetime as dtm
        out = []
        for f in (dtm.true_solar_time, dtm.universal_time_coordinated):
            out += [int(x) for x in np.asarray(f(impl.dt(q['ts']), np.array(q['lon']))).astype('datetime64[ns]').astype('int64').ravel()[:12]]
        return [['clock', True, out]]
    ts = np.arange(q['ts'][0], q['ts'][0] + q['long'], 600).astype('datetime64[s]') if 'long' in q else impl.dt(q['ts'])
    if 'text' in q:                       # the American way, which the library takes
        ts = [v.item().strftime('%m/%d/') + f'{v.item().year:04d}' + v.item().strftime(' %H:%M:%S') for v in ts]
    r = getattr(impl.sunwhere(), q['uc'])(ts, np.array(q['lat']), np.array(q['lon']), algorithm=q['alg'], engine=q['eng'],
                                          refraction=q['refr'])
    out = []
    for a in range(11 if 'long' in q else len(access.NAMES)):
        for arg in ((0,) if a < 11 or a > 16 else (0, 1, 2, 3) if a != 15 else (0,)):
            v = access.values(access.fetch(r, a, arg))
            out.append([access.label(a, arg), any(isinstance(x, int) for x in v), access.sample(v, 3, q['ts'][0] % 1000 if v else 0)])
    return out


if __name__ == '__main__':
    # whatever the library prints is a fault: what this process has to say goes elsewhere
    REAL = sys.stdout
    OUT = io.StringIO()
    sys.stdout = sys.stderr = OUT
    BEGIN = {}
    main()
    REAL.flush()
