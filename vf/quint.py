"""Running Quint: scenario generation, trace packing, sharded trace validation,
model checking."""
import json
import os
import re
import shutil
import socket
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from pathlib import Path

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / 'spec'
S = 10**18
W = 10**24
OFF = W // 2
NAN, PINF, NINF, ERR = (W - 1 - OFF, W - 2 - OFF, W - 3 - OFF, W - 4 - OFF)
NPROC = min(8, os.cpu_count() or 1)


def isnum(x):
    return x < ERR


class MachineryError(Exception):
    """The checker itself failed (as opposed to the code under check)"""


class Work:
    """A scratch directory with the specification in it"""

    def __init__(self):
        self.dir = Path(tempfile.mkdtemp(prefix='vf-'))
        (self.dir / 'spec').symlink_to(SPEC)
        self.states = 0
        self.transitions = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def num(v):
    """ITF value -> python"""
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#set' in v:
            return [num(x) for x in v['#set']]
        if '#map' in v:
            return {num(k) if not isinstance(k, dict) else json.dumps(k): num(x) for k, x in v['#map']}
        if '#tup' in v:
            return tuple(num(x) for x in v['#tup'])
        return {k.rsplit('::', 1)[-1]: num(x) for k, x in v.items() if k != '#meta'}
    if isinstance(v, list):
        return [num(x) for x in v]
    return v


def _run(cmd, cwd, timeout):
    env = dict(os.environ)
    env.setdefault('NODE_OPTIONS', '--max-old-space-size=3000')
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f'timeout of {cmd}') from exc


def simulate(work, module, main, steps, seed, invariant=None, init='init', step='step', samples=1, timeout=600,
             ntraces=1, mbt=True):
    """Behaviours of a specification, as lists of states (python values)"""
    tag = f'{main}-{seed}-{time.monotonic_ns()}'
    out = work.dir / f'{tag}_{{seq}}.itf.json' if ntraces > 1 else work.dir / f'{tag}.itf.json'
    cmd = ['quint', 'run', '--main', main, '--max-steps', str(steps), '--max-samples', str(max(samples, ntraces)),
           '--n-traces', str(ntraces), '--seed', hex(seed), '--init', init, '--step', step,
           '--out-itf', str(out), '--verbosity', '1']
    if mbt:
        cmd.append('--mbt')
    if invariant:
        cmd += ['--invariant', invariant]
    cmd.append(f'spec/{module}.qnt')
    p = _run(cmd, work.dir, timeout)
    if p.returncode != 0:
        raise MachineryError(f'{" ".join(cmd)}\n{p.stdout[-3000:]}')
    traces = []
    files = sorted(work.dir.glob(f'{tag}_*.itf.json')) if ntraces > 1 else [out]
    for f in files:
        states = [num(s) for s in json.loads(f.read_text())['states']]
        work.states += len(states)
        work.transitions += max(0, len(states) - 1)
        traces.append(states)
        f.unlink()
    return traces if ntraces > 1 else traces[0]


def verify(work, module, main, invariant, backend='tlc', init='init', step='step', timeout=600, steps=None):
    """Exhaustive model checking of a finite specification with TLC (through Quint)"""
    cmd = ['quint', 'verify', '--backend', backend, '--main', main, '--invariant', invariant,
           '--init', init, '--step', step, f'spec/{module}.qnt']
    if steps is not None:
        cmd += ['--max-steps', str(steps)]
    for _ in range(4):
        with socket.socket() as sk:                 # Apalache's server: a port of its own
            sk.bind(('localhost', 0))
            port = sk.getsockname()[1]
        p = _run(cmd + ['--server-endpoint', f'localhost:{port}'], work.dir, timeout)
        if p.returncode == 0 or 'Apalache server' not in p.stdout.splitlines()[-1] + (p.stdout if 'bind' in p.stdout else ''):
            break
    ok = p.returncode == 0
    st = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout)
    gen = int(st.group(1).replace(',', '')) if st else 0
    dist = int(st.group(2).replace(',', '')) if st else 0
    work.states += dist
    work.transitions += gen
    if not ok:
        raise MachineryError(f'the specification {module}/{main} does not satisfy {invariant}:\n{p.stdout[-3000:]}')
    return dist, gen


# ---------------------------------------------------------------- traces

def fx(x):
    """a number, as a scaled integer field"""
    if x is None:
        return ERR
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x * S
    x = float(x)
    if x != x:
        return NAN
    if x in (float('inf'), float('-inf')):
        return PINF if x > 0 else NINF
    if abs(x) > 4.9e5:
        return PINF - 10 if x > 0 else -(OFF - 10)
    f = Fraction(x) * S
    return (f.numerator * 2 + f.denominator) // (2 * f.denominator)


def pack(fields):
    n = 0
    for v in reversed(fields):
        if not -OFF <= v < OFF:
            v = ERR
        n = n * W + (v + OFF)
    return n * W + (len(fields) + OFF)


MAIN = '''module main {{
  import fixed.* from "./spec/fixed"
  import trace.* from "./spec/trace"
  import {module}.* from "./spec/{module}"
{data}
  pure val CHUNKS: List[List[int]] = [{names}]
  type Found = {{ rec: int, clause: str, at: List[int], got: int, want: int }}
  var i: int
  var n: int
  var fails: List[Found]
  action init = all {{ i' = 0, n' = 0, fails' = [] }}
  action step = all {{
    i < length(CHUNKS),
    i' = i + 1,
    val res = range(0, length(CHUNKS[i])).foldl((n, fails), (acc, k) => {{
      val v = judge({args}CHUNKS[i][k])
      (acc._1 + v.n, if (length(acc._2) > {maxfails}) acc._2 else
        v.fails.foldl(acc._2, (l, f) => l.append({{ rec: {base} + i * {csize} + k, clause: f.clause, at: f.at,
                                                    got: f.got, want: f.want }})))
    }})
    all {{ n' = res._1, fails' = res._2 }}
  }}
  val accepted = length(fails) == 0
}}
'''


def _shard(work, idx, module, args, records, base, csize, timeout, maxfails):
    data, names = [], []
    for k in range(0, len(records), csize):
        data.append(f'  pure val D{k}: List[int] = [' + ',\n'.join(map(str, records[k:k + csize])) + ']')
        names.append(f'D{k}')
    src = MAIN.format(module=module, data='\n'.join(data), names=', '.join(names), args=args,
                      base=base, csize=csize, maxfails=maxfails)
    f = work.dir / f'conf_{module}_{idx}_{base}.qnt'
    f.write_text(src)
    out = f.with_suffix('.itf.json')
    cmd = ['quint', 'run', '--main', 'main', '--max-steps', str(len(names)), '--max-samples', '1', '--seed', '0x1',
           '--out-itf', str(out), '--verbosity', '1', f.name]
    p = _run(cmd, work.dir, timeout)
    if not out.exists():
        if re.search(r'QNT5\d\d', p.stdout) and 'Runtime error' in p.stdout:
            # the specification says nothing of some record: which one?
            if len(records) == 1:
                print(f'a record that the specification cannot read ({module}): {p.stdout[:400]}')
                return 1, [dict(rec=base, clause='an observation outside the specification', at=[0] * 6, got=0, want=0)], 1
            h = len(records) // 2
            halves = [_shard(work, f'{idx}{t}', module, args, recs, b, csize, timeout, maxfails)
                      for t, b, recs in (('a', base, records[:h]), ('b', base + h, records[h:]))]
            return tuple(a + b for a, b in zip(*halves))
        raise MachineryError(f'{" ".join(cmd)}\n{p.stdout[-3000:]}')
    states = json.loads(out.read_text())['states']
    last = num(states[-1])
    if last['i'] != len(names):
        raise MachineryError(f'validator stopped at chunk {last["i"]} of {len(names)}\n{p.stdout[-2000:]}')
    f.unlink()
    out.unlink()
    return last['n'], last['fails'], len(states)


def validate(work, module, records, args='', weights=None, csize=10, timeout=800, maxfails=40):
    """Checks packed records against `judge` of a specification module.

    -> (clauses evaluated, failures with the index of the record)"""
    if not records:
        return 0, []
    nsh = max(1, min(NPROC, (len(records) + 3) // 4))
    size = (len(records) + nsh - 1) // nsh
    while size > 39 * csize:
        csize += 5
        if csize >= 35:
            break
    # keep each file small: more shards than processes if need be
    maxper = 35 * 35
    size = min(size, maxper)
    jobs = [(k, records[k:k + size]) for k in range(0, len(records), size)]
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(_shard, work, j, module, args, recs, base, csize, timeout, maxfails)
                for j, (base, recs) in enumerate(jobs)]
        n, fails = 0, []
        for fu in futs:
            a, b, st = fu.result()
            n += a
            fails += b
            work.states += st
            work.transitions += st - 1
    return n, fails
