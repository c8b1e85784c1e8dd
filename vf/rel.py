"""Records of spec/conf_rel.qnt"""
from . import impl
from .quint import fx, pack, validate

DIRECTION, ECF, EOT, DEC, COSINE, TIME, ANGLE, IRRAD, EXACT, MISSING, PRESENT, VALUE = range(12)


def raw(v):
    """integers (times, sizes, codes): no scaling"""
    from .quint import ERR, NAN
    if v is None:
        return ERR
    if isinstance(v, float):
        return NAN if v != v else int(v)
    return int(v)


class Rec:
    def __init__(self, alg=0, refr=0, **info):
        self.alg, self.refr, self.info = alg, int(bool(refr)), info
        self.cells, self.labels = [], []

    def dir(self, pairs, labels=(), **where):
        f = [DIRECTION, len(pairs)]
        for z, a in pairs:
            f += [fx(z), fx(a)]
        self.cells.append(f)
        self.labels.append((where, labels))

    def add(self, kind, values, labels=(), **where):
        conv = raw if kind in (TIME, EXACT) else fx
        self.cells.append([kind, len(values)] + [conv(v) for v in values])
        self.labels.append((where, labels))

    def pack(self):
        f = [self.alg, self.refr, len(self.cells)]
        for c in self.cells:
            f += c
        return pack(f)


def decide(ctx, recs, csize=8):
    """validates the records; fills in the context"""
    recs = [r for r in recs if r.cells]
    n, fails = validate(ctx.work, 'conf_rel', [r.pack() for r in recs], csize=csize)
    ctx.evaluations += n
    ctx.traces += len(recs)
    for f in fails:
        r = recs[f['rec']]
        where, labels = r.labels[f['at'][0]]
        k = f['at'][1]
        exact = r.cells[f['at'][0]][0] in (TIME, EXACT)
        sc = 1 if exact else 1e18
        ctx.violation(f['clause'], **r.info, **where, who=str(labels[k]) if k < len(labels) else k,
                      observed=f['got'] / sc, reference=f['want'] / sc)
    if not ctx.samples:
        ctx.samples = [dict(**r.info, where=str(r.labels[0][0])) for r in recs[:200:40]]
