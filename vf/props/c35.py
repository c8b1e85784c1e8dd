"""C35: loads that die (histories of spec/crashes.qnt; the protocol of spec/crash.qnt is checked exhaustively by TLC).
Nothing is sent, and everything is written in a scratch directory. A load lives in a child process, which ends at
a given point of what it executes."""
import json
import os
import pathlib
import pickle
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import pack, simulate, verify
from ..quint import validate
from .c25 import Net, SITES, asked, horizons, install, reply, said

YEAR = 2023
PATHS = (os.path.dirname(pathlib.__file__) + os.sep if pathlib.__file__.endswith('__init__.py') else pathlib.__file__, tempfile.__file__, shutil.__file__)


def answer(url):
    """the first three lines of what is asked for"""
    start, stop, step, *_ = asked(url)
    return reply([said(60 * t, 0) for t in list(range(start, stop + 1, step))[:3]])


def to_parquet(self, path=None, *a, **k):
    data = pickle.dumps(self)
    f = open(path, 'wb')
    f.write(data[:len(data) // 2])
    f.flush()
    f.write(data[len(data) // 2:])
    f.close()


def read_parquet(path, *a, **k):
    with open(path, 'rb') as f:
        return pickle.load(f)


def here(code):
    f = code.co_filename
    return f.endswith('jpl_horizons.py') or f.startswith(PATHS) or code is to_parquet.__code__


def traced(fn, at, visit):
    """runs fn; visit(n, where) at each line and return executed in the code that matters"""
    n = [0]

    def local(frame, event, arg):
        if event in ('line', 'return'):
            visit(n[0], (frame.f_code.co_filename, frame.f_lineno, event))
            n[0] += 1
        return local

    sys.settrace(lambda frame, event, arg: local if here(frame.f_code) else None)
    try:
        return fn()
    finally:
        sys.settrace(None)


def act(load, d, net):
    m = horizons()
    pd.DataFrame.to_parquet, pd.read_parquet = to_parquet, read_parquet
    install(net)
    os.chdir(d)
    if load:
        return m.load_jpl_ephemeris(YEAR)
    return m.get_jpl_ephemeris(os.path.join(d, 'some', 'reply.txt'), f'{YEAR}-05-01', f'{YEAR}-05-02', *SITES[0], step_size=12)


def summary(df):
    t = df.index.values.astype('datetime64[s]').astype('int64').tolist()
    y = [int(np.datetime64(f'{YEAR}-{m:02d}-01', 's').astype('int64')) + 720 * j for m in range(1, 13) for j in range(3)]
    right = t == y
    for k, x in zip(range(len(t)), t):
        mm = x // 60
        el = (mm * 7919) % 180000001 - 90000000
        right &= abs(float(df['zenith'].iloc[k]) - (90 - el / 1e6)) < 1e-9
    return [len(df), int(right)]


def child(load, d, place, fail_at, report):
    """in a process of its own"""
    net = Net(answer, fail_at)

    def visit(n, where):
        if n == place:
            with open(report, 'w') as f:
                json.dump([3, len(net.sent), 0, 0], f)
            os._exit(9)

    try:
        got = traced(lambda: act(load, d, net), place, visit) if place is not None else act(load, d, net)
        out = [0, len(net.sent)] + (summary(got) if load else [0, 0])
    except Exception:
        out = [2, len(net.sent), 0, 0]
    with open(report, 'w') as f:
        json.dump(out, f)
    os._exit(0)


def places(load):
    """points of a load where it can die: the first, middle and last times that each line, or return, is executed"""
    d = tempfile.mkdtemp(prefix='vf-crash-')
    old = os.getcwd()
    seen = {}
    try:
        traced(lambda: act(load, d, Net(answer)), None, lambda n, w: seen.setdefault(w, []).append(n))
    except Exception:
        pass
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return sorted({x for ns in seen.values() for x in (ns[0], ns[len(ns) // 2], ns[-1])}) or [0]


def history(ops, where):
    f = [len(ops)]
    top = tempfile.mkdtemp(prefix='vf-crash-')
    d, report = os.path.join(top, 'd'), os.path.join(top, 'report')
    os.mkdir(d)
    try:
        for o in ops:
            at = None
            if o['dies']:
                ps = where[int(o['load'])]
                at = ps[o['place'] % len(ps)]
            if os.path.exists(report):
                os.remove(report)
            pid = os.fork()
            if pid == 0:
                try:
                    child(o['load'], d, at, o['failAt'], report)
                finally:
                    os._exit(1)
            os.waitpid(pid, 0)
            try:
                rc, sent, rows, right = json.load(open(report))
            except Exception:
                rc, sent, rows, right = 1, 0, 0, 0
            there = 0
            name = os.path.join(d, 'some', 'reply.txt')
            if not o['load'] and os.path.exists(name):
                text = open(name, newline='').read()
                there = 1 if '$$SOE\n' in text and '$$EOE\n' in text else 2
            f += [int(o['load']), int(o['dies']), o['failAt'], rc, sent, rows, right, there]
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return pack(f), dict(history=ops)


def run(ctx):
    verify(ctx.work, 'crash', 'crash', 'sound')
    where = pmap(places, [(False,), (True,), (False,), (True,)])[:2]
    ctx.count('places to die in a load', len(where[1]))
    ctx.count('places to die in a request', len(where[0]))
    want = ctx.n(len(where[1]), 6 * len(where[1]))
    ops = [s['op'] for s in simulate(ctx.work, 'crashes', 'crashes', 4 * want, ctx.sub(350), mbt=False)[1:]]
    hist = [ops[i:i + 4] for i in range(0, len(ops), 4)]
    out = pmap(history, [(h, where) for h in hist])
    ctx.count('deaths', sum(o['dies'] for o in ops))
    ctx.evaluations, fails = validate(ctx.work, 'conf_crashes', [o[0] for o in out], csize=12)
    ctx.traces, ctx.distinct = len(out), {str(o[1]) for o in out}
    ctx.samples = [o[1] for o in out[:300:60]]
    ctx.rule = ('TLC checks the protocol of spec/crash.qnt; histories of spec/crashes.qnt, of loads and requests that die at each line and return of '
                'the code that they execute, are lived in processes, and what a later load gives is held against the specification')
    for f in fails:
        ctx.violation(f['clause'], **out[f['rec']][1], at=f['at'], got=f['got'], want=f['want'])
