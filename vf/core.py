"""Bookkeeping of a check: evidence, findings, verdict."""
import json
import os
import time
from pathlib import Path

from .quint import ROOT, Work, MachineryError

EVID = ROOT / 'evidence'
OUT = ROOT / 'out'
KNOWN = ROOT / 'known_findings.jsonl'


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = Work()
        self.evaluations = 0        # clauses of the specification evaluated on observations
        self.traces = 0             # records / traces of the implementation validated
        self.distinct = set()
        self.samples = []
        self.violations = []        # dicts
        self.cover = {}
        self.notes = []
        self.level = 'exploration'
        self.rule = ''
        self.assumptions = []
        self.exhaustive = None

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sub(self, k):
        """a seed for the k-th random source"""
        return self.seed * 1000 + k

    def count(self, key, k=1):
        self.cover[key] = self.cover.get(key, 0) + k

    def violation(self, clause, **info):
        self.violations.append(dict(clause=clause, **info))

    # ------------------------------------------------------------------
    def known(self):
        if not KNOWN.exists():
            return []
        r = [json.loads(x) for x in KNOWN.read_text().splitlines() if x.strip() and x.lstrip().startswith('{')]
        return [x for x in r if x.get('property') == self.prop and x.get('status') == 'known']

    def finish(self):
        known = self.known()
        new, seen = [], {}
        for v in self.violations:
            for k in known:
                m = k['match']
                if all(v.get(a) == b for a, b in m.items()):
                    seen.setdefault(k['id'], (k, v))
                    break
            else:
                new.append(v)
        for k, v in seen.values():
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        EVID.mkdir(exist_ok=True)
        cov = dict(states=self.work.states, transitions=self.work.transitions,
                   traces_validated_against_impl=self.traces,
                   evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                   rule=self.rule, samples=self.samples[:6], classes=self.cover)
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        if self.notes:
            cov['explanation'] = ' '.join(self.notes)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
                  seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        (EVID / f'{self.prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
        self.work.close()
        if new:
            OUT.mkdir(exist_ok=True)
            rp = OUT / f'{self.prop}-replay.json'
            rp.write_text(json.dumps(dict(property=self.prop, seed=self.seed, tier=self.tier,
                                          violations=new[:50]), indent=1, default=str) + '\n')
            for v in new[:8]:
                print('  ' + json.dumps(v, default=str)[:600])
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        if self.traces == 0 or self.evaluations == 0:
            raise MachineryError('nothing was checked')
        print(f'OK {self.prop}: {self.evaluations} clauses over {self.traces} traces, '
              f'{self.work.states} states, {time.time() - self.t0:.1f} s')
        return 0
