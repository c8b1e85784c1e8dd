"""The implementation under check, through its public interface only."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
warnings.simplefilter('ignore')
os.environ.setdefault('NUMEXPR_MAX_THREADS', '8')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402,F401

np.seterr(all='ignore')

ALGS = ['psa', 'soltrack', 'iqbal', 'nrel']
ENGINES = {'psa': ['numpy', 'numexpr'], 'soltrack': ['numpy', 'numexpr'],
           'iqbal': ['numpy', 'numexpr'], 'nrel': ['numexpr']}
UC = ['sites', 'regular_grid', 'transect']


class Crash:
    """Stands for a call that raised: every attempt to read it gives an error"""

    def __init__(self, exc):
        self.exc = exc


_sw = None


def sunwhere():
    global _sw
    if _sw is None:
        import sunwhere as sw
        _sw = sw
    return _sw


def call(uc, times, lat, lon, algorithm='psa', engine='numexpr', refraction=True, **kw):
    try:
        return getattr(sunwhere(), uc)(times, lat, lon, algorithm=algorithm, engine=engine, refraction=refraction, **kw)
    except Exception as exc:  # an observation, judged by the specification
        return Crash(exc)


def read(res, name, shape, *args, **kw):
    """values of an accessor (a method if there are arguments) with the given
    shape; None where they cannot be had"""
    bad = np.full(shape, None, dtype=object)
    if isinstance(res, Crash):
        return bad
    try:
        a = getattr(res, name)
        if callable(a):
            a = a(*args, **kw)
        v = np.asarray(getattr(a, 'values', a))
        if v.shape != tuple(shape):
            return bad
        if v.dtype.kind in 'mM':
            v = v.astype(v.dtype.kind + '8[ns]')
            out = v.astype('int64').astype(object)
            out[np.isnat(v)] = float('nan')
            return out
        return v.astype(float)
    except Exception:
        return bad


def dt(ts):
    return np.array(ts, dtype='int64').astype('datetime64[s]')


# nanoseconds within a second (those of spec/motion.qnt)
FRACS = [0, 1, 999, 1000, 1000000, 499999999, 500000000, 500000001, 750000000, 999000000, 999999000, 999999999]


def moments(ts, u, v, one=False):
    """the instants ts (seconds); those of a quarter of the requests with fractions
    of a second (one: the same of all), in the units that hold all of them"""
    ts = [int(t) for t in ts]
    if (u // 13 + v // 5) % 4:
        return dt(ts)
    per = 10**9 if max(map(abs, ts)) < 8.9e9 and v % 3 else 10**6 if v % 2 else 1000
    return np.array([t * per + FRACS[(u + (0 if one else 5 * k)) % len(FRACS)] // (10**9 // per) for k, t in enumerate(ts)], dtype='int64').astype(
        {10**9: 'M8[ns]', 10**6: 'M8[us]', 1000: 'M8[ms]'}[per])
