"""C30: the library neither depends on nor changes the process it is used in (lives of spec/env.qnt)."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from .. import impl
from ..cases import cases
from ..quint import ERR, ROOT, pack, simulate, validate
from ..rel import EXACT, VALUE, Rec, decide

SETTINGS = ['numpy error handling', 'warning filters', 'random', 'numpy random', 'working directory', 'environment variables',
            'pandas options', 'xarray options', 'numpy print options', 'decimal context', 'local time zone', 'threads of numexpr',
            'limits of the interpreter', 'locale', 'logging', 'output written', 'files in the working directory', 'threads alive',
            'import path']
NREQ = 14
TZ = [None, 'UTC', 'Asia/Kathmandu', 'America/St_Johns', 'EST5EDT4,M3.2.0,M11.1.0']
LC = [None, 'C', 'C.UTF-8', 'POSIX']


def live(start, dirs, requests, ops):
    env = {k: v for k, v in os.environ.items() if k not in ('TZ', 'LC_ALL', 'LANG', 'PYTHONWARNINGS', 'PYTHONUTF8')}
    env.update(PYTHONDONTWRITEBYTECODE='1', NUMEXPR_MAX_THREADS='8', PYTHONPATH=str(ROOT), PYTHONHASHSEED=str(start['hash'] * 77),
               NUMEXPR_NUM_THREADS=str([8, 1, 2, 5][start['threads']]), PYTHONUTF8=str(start['utf8']))
    for k, v in (('TZ', TZ[start['tz']]), ('LC_ALL', LC[start['lc']]), ('PYTHONWARNINGS', [None, 'ignore', 'always'][start['warn']])):
        if v is not None:
            env[k] = v
    job = dict(dirs=dirs, dir=start['dir'], requests=requests, ops=ops)
    p = subprocess.run([sys.executable, *['', '-O', '-OO'][start['opt']].split(), '-m', 'vf.process'], input=json.dumps(job), env=env,
                       cwd=dirs[0], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    try:
        return json.loads(p.stdout)
    except ValueError:
        return dict(ops=[], answers=[], died=f'{p.returncode} {p.stderr[-600:]}')


def requests(ctx):
    out = []
    pool = cases(ctx, 0, 56, ctx.sub(300))
    for a in range(4):
        cs = pool[12 * a:12 * a + 12]
        for u, uc in enumerate(impl.UC):
            c = cs[4 * u:4 * u + 4]
            eng = impl.ENGINES[impl.ALGS[a]]
            q = dict(kind='sun', uc=uc, alg=impl.ALGS[a], eng=eng[(a + u) % len(eng)], refr=bool((a + u) % 2), ts=[x['t'] for x in c],
                     lat=[x['lat'] for x in c], lon=[x['lon'] for x in c])
            if u == 0 and a in (0, 3):
                q.update(long=600 * 9000)              # so many that numexpr shares them among its threads
            out.append(q)
    c = pool[48:]
    out.append(dict(kind='clock', ts=[x['t'] for x in c[:4]], lon=[x['lon'] for x in c[:4]]))
    out.append(dict(out[0], ts=[x['t'] for x in c[4:]], uc='transect', lat=[x['lat'] for x in c[4:]], lon=[x['lon'] for x in c[4:]]))
    del out[-1]['long']
    # written as month/day, of days that could be months
    day = [int(str(t)[8:10]) for t in impl.dt(out[-1]['ts'])]
    out[-1].update(text=True, ts=[t - (d - 1) // 12 * 12 * 86400 for t, d in zip(out[-1]['ts'], day)])
    return out


def run(ctx):
    lives = []
    for s in range(ctx.n(1, 10) + 1):
        for st in simulate(ctx.work, 'env', 'env', 41 * 30 if s else 16 * 26 - 1, ctx.sub(305 + s), invariant='mine', **({} if s else dict(step='planned'))):
            if st['age'] == 0:
                lives.append((dict(st['start']), [[3, 0, 0]]))
            else:
                tag, v = st['last']['tag'], st['last']['value']
                lives[-1][1].append([['Change', 'Ask', 'Refuse'].index(tag), v['i'] if tag == 'Change' else v['r'],
                                     v['v'] if tag == 'Change' else 0])
    reqs = requests(ctx)
    plain = dict(tz=1, lc=2, hash=0, opt=0, dir=0, threads=0, warn=0, utf8=1)
    jobs = [(plain, [[1, r, 0]]) for r in range(NREQ)] + lives

    def one(k):
        dirs = [str(ctx.work.dir / f'life{k}{x}') for x in 'ab']
        for d in dirs:
            os.mkdir(d)
        return live(jobs[k][0], dirs, reqs, jobs[k][1])
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, range(len(jobs))))
    base = [o['answers'][0] if o['answers'] else o['died'] for o in out[:NREQ]]
    trace = []
    for (start, ops), o in zip(jobs, out):
        if 'died' in o:
            trace.append(pack([1] + ops[0] + [ERR] * len(SETTINGS)))
        else:
            trace.append(pack([len(o['ops'])] + [x for op in o['ops'] for x in op]))
    n, fails = validate(ctx.work, 'conf_env', trace, csize=4)
    ctx.evaluations += n
    ctx.traces += len(trace)
    for f in fails:
        k, i = f['at'][:2]
        start, ops = jobs[f['rec']]
        ctx.violation(f['clause'], setting=SETTINGS[i], started=start, operation=ops[k], after=ops[:k][-5:], died=out[f['rec']].get('died'),
                      request=reqs[ops[k][1]] if ops[k][0] == 1 else None)
    recs = []
    for (start, ops), o in zip(jobs, out):
        for k, (op, got) in enumerate(zip(ops, o['answers'])):
            if op[0] != 1:
                rec = Rec(0, 0, started=start, operation=op, answer=got)
                rec.add(EXACT, [0, 0 if got is None else ERR], ('', 'done'))
                if got is not None:
                    recs.append(rec)
                continue
            want = base[op[1]]
            rec = Rec(0, 0, started=start, request=reqs[op[1]], settings=ops[:k][-8:])
            if not isinstance(want, list) or not isinstance(got, list):
                rec.add(EXACT, [0, ERR], ('', str(got)[:300] + str(want)[:300]))
            else:
                rec.add(EXACT, [len(want), len(got)], ('alone', 'here'), var='number of variables')
                for (name, time, w), (_, _, g) in zip(want, got):
                    rec.add(EXACT, [len(w), len(g)], ('alone', 'here'), var='size of ' + name)
                    for x, y in zip(w, g):
                        rec.add(EXACT if time else VALUE, [x, y], ('alone', 'here'), var=name)
            recs.append(rec)
    # answers that are the same to the last bit are judged once
    recs = list({r.pack(): r for r in reversed(recs)}.values())
    for start, ops in lives:
        for k in start:
            ctx.count(f'{k} {start[k]}')
        for op in ops:
            ctx.count(['a setting is changed', 'asked', 'refused', 'imported'][op[0]])
    ctx.distinct = {(str(a), str(b)) for a, b in lives}
    ctx.rule = ('processes started in the environments of spec/env.qnt, whose settings are changed between requests: what they were '
                'seen to be is judged by spec/conf_env.qnt, and answers are compared with those of processes of one request')
    decide(ctx, recs, csize=6)
