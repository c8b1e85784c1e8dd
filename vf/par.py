"""Parallel driving of the implementation, in forked processes."""
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor

from .quint import NPROC


def _star(job):
    fn, args = job
    return fn(*args)


def pmap(fn, argss, nproc=NPROC):
    """[fn(*args) for args in argss], in order"""
    argss = list(argss)
    if len(argss) < 4:
        return [fn(*a) for a in argss]
    with ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork')) as ex:
        return list(ex.map(_star, [(fn, a) for a in argss], chunksize=max(1, min(8, len(argss) // (4 * nproc)))))
