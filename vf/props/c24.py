"""C24: the command line (orders of spec/cli.qnt)"""
import contextlib
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import zoneinfo

import numpy as np
import pandas as pd

from .. import impl
from ..par import pmap
from ..quint import ERR, fx, pack, simulate, validate
from ..rel import raw
from .c09 import ZONES, fixed

ZN = [z if isinstance(z, str) else ('UTC+05:30', 'UTC-03:15')[z < 0] for z in ZONES]
ROWS = ['Day of week', 'Date', 'Time', 'Latitude', 'Longitude', 'Declination', 'Sun-Earth distance', 'Zenith', 'Elevation',
        'Azimuth (0\u00b0 south)', 'Sunrise(UTC)', 'Sunset(UTC)', 'Sunrise({})', 'Sunset({})', 'Equation of time']
TEXTS = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
ABBR = ['UTC', 'CET', 'CEST', 'EST', 'EDT', '+0545', '+1030', '+11', 'NST', 'NDT', '+14', '-11', 'UTC+05:30', 'UTC-03:15', 'JST', 'GMT', 'BST']


def deg(n, pos, neg, form):
    s = neg if n < 0 else pos
    n = abs(n)
    t = f'{n // 10000}.{n % 10000:04d}'
    if form % 3 == 1:
        t = t.rstrip('0').rstrip('.')
    return t + (s.lower() if form % 2 else s)


def argv(q):
    d = np.datetime64(q['w'], 's').item()
    t = [d.strftime('%Y-%m-%dT%H:%M:%S'), d.strftime('%Y-%m-%d %H:%M'), d.strftime('%Y-%m-%d %H:%M:%S'), d.strftime('%d %b %Y %H:%M:%S'),
         d.strftime('%Y-%m-%d'), d.strftime('%Y%m%dT%H%M%S')][q['tf']]
    y, x = deg(q['lat4'], 'N', 'S', q['tf']), deg(q['lon4'], 'E', 'W', q['tf'] + q['alg'])
    z, a = ZN[q['zone']], impl.ALGS[q['alg']]
    f = q['flaw']
    k = q['w'] % 3
    y = {1: y[:-1] + 'XQ+'[k], 2: y[:-1], 3: ['90.0001N', '91S', '1e3N'][k], 10: ['nanN', 'S', '4O.5N'][k], 14: y[:-1] + 'E'}.get(f, y)
    x = {4: ['180E', '180.0E', '359.5E'][k], 5: x[:-1] + 'NS?'[k], 11: ['180.0001W', '181W', '360W'][k], 13: ['nanE', 'W', '1,5W'][k]}.get(f, x)
    z = {6: ['Europe/Madrit', 'Mars/Olympus', 'nowhere'][k]}.get(f, z)
    a = {7: ['spa', 'spencer', 'nrel2'][k]}.get(f, a)
    t = {8: ['yesterdayish', 'noon o clock', '12-34-56-78'][k], 9: ['2023-02-30T10:00:00', '2021-02-29', '2022-13-01 00:00:00'][k],
         12: ['2022-12-01T25:00:00', '2022-12-01 10:60:00', '2022-12-01 24:30'][k]}.get(f, t)
    out = ['at', t, y, x]
    opt = (q['w'] // 3) % 2
    if a != 'psa' or opt:
        out += [['-a', '--algorithm'][opt], a]
    if q['refr'] < 2:
        out += [['--no-refraction', '--refraction'][q['refr']]]
    if z != 'UTC' or opt:
        out += [['-z', '--timezone'][opt], z]
    return out


def rows_of(text):
    out = []
    for ln in text.splitlines():
        m = re.match(r'^\s*[\u2551|]\s*(.*?)\s*[\u2551|]\s*(.*?)\s*[\u2551|]\s*$', ln)
        if m:
            out.append(m.groups())
    return out


def in_process(args):
    from typer.testing import CliRunner
    from sunwhere._cli.main import app
    r = CliRunner().invoke(app, args)
    return r.exit_code, r.output


def out_of_process(args):
    env = dict(os.environ, PYTHONPATH=os.path.join(impl.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', COLUMNS='200')
    p = subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()', *args], env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout


def idx(seq, x):
    return seq.index(x) if x in seq else -1


def one(q, t, process):
    args = argv(q)
    try:
        code, text = (out_of_process if process else in_process)(args)
    except Exception as exc:
        code, text = 99, repr(exc)
    rows = rows_of(text)
    f = [q[k] for k in ('zone', 'w', 'lat4', 'lon4', 'alg', 'refr', 'tf', 'flaw')] + [code, int(bool(rows))]
    if code == 0 and rows:
        names = [r.format(ZN[q['zone']]) for r in ROWS]
        got = {}
        slots = []
        for name, val in rows:
            k = idx(names, name)
            slots.append(k)
            got.setdefault(k, val)
        f += [len(slots)] + slots
        f.append(idx(DAYS, got.get(0)))
        m = re.fullmatch(r'(\d\d) ([A-Za-z]+) (\d{4})', got.get(1, ''))
        f += [int(m[1]), idx(MONTHS, m[2]) + 1, int(m[3])] if m else [-1] * 3
        m = re.fullmatch(r'(\d\d):(\d\d):(\d\d)\((.*)\)', got.get(2, ''))
        f += [int(m[1]), int(m[2]), int(m[3]), idx(ABBR, m[4])] if m else [-1] * 4
        for k in TEXTS:
            s = [ord(c) for c in got.get(k, '')][:40]
            f += [len(s)] + s
        lib = [None] * 10
        if t is not None:
            z = ZONES[q['zone']]
            ts = pd.to_datetime([np.datetime64(t, 's')]).tz_localize('UTC').tz_convert(z if isinstance(z, str) else fixed(z))
            r = impl.call('sites', ts, q['lat4'] / 1e4, q['lon4'] / 1e4, impl.ALGS[q['alg']], 'numexpr', q['refr'] != 0)
            lib = [impl.read(r, 'declination', (1,))[0], impl.read(r, 'ecf', (1,))[0]]
            lib += [impl.read(r, a, (1, 1))[0, 0] for a in ('zenith', 'elevation', 'azimuth')] + [impl.read(r, 'eot', (1,))[0]]
            lib += [impl.read(r, a, (1, 1), u)[0, 0] for u in ('utc', 'local') for a in ('sunrise', 'sunset')]
        f += [fx(v) for v in lib[:6]] + [raw(v) for v in lib[6:]]
    return pack(f), args, text


def tzif(path, instant, before, after):
    """a zone whose clocks change at an instant"""
    names = b'XST\0XWT\0'

    def block(version, fmt):
        return (b'TZif' + version + bytes(15) + struct.pack('>6l', 0, 0, 0, 2, 2, len(names)) + struct.pack('>2' + fmt, 0, instant) +
                bytes([0, 1]) + struct.pack('>lbb', before, 0, 0) + struct.pack('>lbb', after, 0, 4) + names)

    with open(path, 'wb') as f:
        f.write(block(b'2', 'l') + block(b'2', 'q') + b'\nXWT%d\n' % (-after // 3600))


@contextlib.contextmanager
def zones_of_ours():
    """zones where it is the hour that is repeated: the clocks were turned back, or they are about to"""
    d = tempfile.mkdtemp(prefix='vf-zones-')
    old = zoneinfo.TZPATH
    try:
        os.mkdir(os.path.join(d, 'Turned'))
        t = int(time.time())
        tzif(os.path.join(d, 'Turned', 'Back'), t - 1200, 7200, 3600)
        tzif(os.path.join(d, 'Turned', 'Soon'), t + 1200, 7200, 3600)
        zoneinfo.reset_tzpath(to=[d, *old])
        yield {'Turned/Back': 3600, 'Turned/Soon': 7200}
    finally:
        zoneinfo.reset_tzpath(to=old)
        shutil.rmtree(d, ignore_errors=True)


def moment(what, zone, offset, said='now', instant=None):
    """what is printed for now, or for an instant said with its own offset"""
    a = int(time.time()) if instant is None else instant
    code, text = in_process(['at', said, '40N', '3.5W', '-z', zone])
    b = int(time.time()) + 1 if instant is None else instant
    shown, zen, z = ERR, ERR, ERR
    g = dict(rows_of(text))
    try:
        d = np.datetime64(pd.to_datetime(g['Date'] + ' ' + g['Time'].split('(')[0], format='%d %B %Y %H:%M:%S'), 's')
        shown = int(d.astype('int64')) - offset
        zen = fx(float(g['Zenith'].rstrip('\u00b0')))
        r = impl.call('sites', impl.dt([shown]), 40., -3.5, 'psa', 'numexpr', True)
        z = fx(impl.read(r, 'zenith', (1, 1))[0, 0])
    except Exception:
        pass
    return pack([99, what, a, b, code, shown, zen, z]), ['at', said, '-z', zone], text


def moments():
    out = [moment(0, ZN[z], o) for z, o in ((0, 0), (3, 20700), (6, 50400), (7, -39600), (8, 19800), (9, -11700), (10, 32400))]
    with zones_of_ours() as zs:
        out += [moment(1, z, o) for z, o in zs.items()]
    return out + [moment(2, 'Asia/Kathmandu', 20700, s, 1719817200 + k) for s, k in (
        ('2024-07-01T12:00:00+05:00', 0), ('2024-07-01T07:00:00Z', 0), ('2024-06-30 22:30:00-08:30', 0), ('2024-07-01T12:45:00+05:45', 0))]


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    per = ctx.n(150, 2500)
    with ThreadPoolExecutor(8) as ex:
        trs = ex.map(lambda s: simulate(ctx.work, 'cli', 'cli', per, ctx.sub(240 + s), init='initCli', step='order',
                                        invariant='coherent')[1:], range(8))
        sts = [s for tr in trs for s in tr]
    jobs = []
    for i, s in enumerate(sts):
        o = s['outcome']
        t = o['value'] if o['tag'] == 'Printed' else None
        ctx.count('printed' if t is not None else 'refused: flaw %d' % s['q']['flaw'])
        jobs.append((s['q'], t, i % 150 == 0))
    out = pmap(one, jobs) + moments()
    ctx.evaluations, fails = validate(ctx.work, 'conf_cli', [o[0] for o in out], csize=10)
    ctx.traces, ctx.distinct = len(out), {str(o[1]) for o in out}
    ctx.samples = [' '.join(o[1]) for o in out[:6]]
    ctx.rule = ('orders of spec/cli.qnt (times, also at DST changes, places, algorithms, options, flaws) given to the command line; what '
                'it prints is parsed inside Quint and held against what the library gives for the instant and place')
    for f in fails:
        _, args, text = out[f['rec']]
        ctx.violation(f['clause'], arguments=' '.join(args), printed=text[-1500:], got=f['got'], want=f['want'])
