"""C22: concurrent calls do not interfere (programs and schedules of spec/threads.qnt)."""
import multiprocessing as mp
import threading

from .. import access, threads
from ..par import pmap
from ..quint import NPROC, pack, simulate, validate, verify
from .c21 import LATS, LONS, TIMES, look, make, pristine


def build(c):
    return make(c['uc'], c['alg'], c['eng'], c['refr'], TIMES[c['t']].copy(), LATS[max(c['y'], 0)].copy(), LONS[c['x']].copy())


def full(c, acc, arg):
    return (c['uc'], c['alg'], c['eng'], c['refr'], c['t'], c['y'], c['x'], acc, arg)


def norm(k):
    return k if k[0] < 3 else k[:5] + (-1, k[6], -1, -1)


def reads(case):
    """key of every read of the programs"""
    for prog in case['progs']:
        own = None
        for op in prog:
            if op['tag'] == 'Build':
                own = op['value']
            else:
                v = op['value']
                c = case['shared'] if v['shared'] else own
                yield full(c, v['acc'], v['arg'])


def execute(case, alone, free):
    shared = build(case['shared'])
    log, lock = [], threading.Lock()
    out, names = [], []
    for k in dict.fromkeys(reads(case)):
        out += [6, *k, *alone[norm(k)]]
        names.append('alone')

    def program(th, prog):
        def go():
            own = own_c = None
            for n, op in enumerate(prog):
                with lock:
                    log.append(([1, th, n], f'thread {th} begins {op}'))
                v = op['value']
                if op['tag'] == 'Build':
                    own, own_c = build(v), v
                    f = [2, th, n, 0 if type(own).__name__ == 'Crash' else 1]
                else:
                    c, res = (case['shared'], shared) if v['shared'] else (own_c, own)
                    f = [3, th, n, *full(c, v['acc'], v['arg']), *look(res, c['uc'], v['acc'], v['arg'])]
                with lock:
                    log.append((f, f'thread {th} ends {op}'))
        return go
    sched = None if free else [(q['th'], q['lines']) for q in case['sched']]
    sw, ended = threads.run([program(k, p) for k, p in enumerate(case['progs'])], sched)
    with lock:
        ev = list(log)
    f = []
    for e, name in ev:
        f += e
        names.append(name)
    return pack([len(names)] + out + f), names, sw, ended


def some_cases(ctx, count, k):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        trs = ex.map(lambda s: simulate(ctx.work, 'threads', 'threads', 46 * (count // 8) + 1, ctx.sub(k + s), invariant='sane'), range(8))
        out = []
        for tr in trs:
            out += [a for a, b in zip(tr, tr[1:]) if b['age'] == 1 and a['age'] > 1]
    return out


def run(ctx):
    d, _ = verify(ctx.work, 'threads_all', 'threads_all', 'asAlone')
    ctx.count('states of threads_all checked exhaustively by TLC', d)
    cs = some_cases(ctx, ctx.n(160, 2400), 220)
    keys = sorted({norm(k) for c in cs for k in reads(c)})
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
        alone = dict(zip(keys, pool.map(pristine, keys, chunksize=1)))
    jobs = [(c, alone, False) for c in cs] + [(c, alone, True) for c in cs[:len(cs) // 2]]
    out = pmap(execute, jobs)
    ctx.evaluations, fails = validate(ctx.work, 'conf_threads', [o[0] for o in out], csize=4)
    ctx.traces, ctx.distinct = len(out), {str(o[1]) for o in out}
    ctx.count('switches between threads, at lines of the library', sum(o[2] for o in out))
    ctx.count('runs under a schedule', len(cs))
    ctx.count('runs scheduled by the interpreter', len(jobs) - len(cs))
    ctx.samples = [dict(schedule=c['sched'][:8], order=o[1][-12:]) for c, o in list(zip(cs, out))[:3]]
    ctx.rule = ('programs and schedules of spec/threads.qnt executed line by line under sys.settrace; what each read returns is '
                'compared with the same read in a process of its own')
    for o, job in zip(out, jobs):
        if not o[3]:
            ctx.violation('all threads finish', schedule=job[0]['sched'], order=o[1][-6:])
    for f in fails:
        o, job = out[f['rec']], jobs[f['rec']]
        k = f['at'][0]
        ctx.violation(f['clause'], event=o[1][k], before=[x for x in o[1][max(0, k - 6):k] if x != 'alone'],
                      free=job[2], schedule=str(job[0]['sched'])[:400], observed=f['got'], expected=f['want'])
