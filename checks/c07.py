import random, gen
from c06 import CFG

KINDS = ['pos_direct', 'pos_indirect', 'dfg_direct', 'dfg_indirect', 'lap_direct', 'lap_indirect']


def runs(rng, log, n):
    cl = sorted({x for t in log for x in t})
    out = []
    for _ in range(n):
        prot = rng.choice([[], [], cl, rng.sample(cl, min(len(cl), rng.randint(0, 2)))])
        if rng.random() < 0.3:
            out.append({'op': 'end', 'kind': rng.choice(KINDS[:2]), 'prot': prot, 'delta': rng.random() < 0.5})
            continue
        kind = rng.choice(KINDS)
        sc = 1e4 if kind.startswith('pos') else 1e5
        thr = int(rng.choice([-0.5, 0, 0.2, 0.45, 0.71, 1.13, 1.9, 3.3, 9]) * sc)
        out.append({'op': 'filter', 'kind': kind, 'thr': thr, 'prot': prot, 'part': rng.random() < 0.5,
                    'top': rng.choice([[1, 1], [1, 2], [1, 4], [3, 4], [1, 20]])})
    return out


def run(c):
    r = c.model('MCEntropy', CFG % c.pick((3, 2, 3, 4), (3, 3, 3, 5)))
    rng = random.Random(c.seed)
    logs = [x['log'] for x in r.cases]
    cases = gen.cases_from(logs, 'm', extra=lambda i, l: {'runs': runs(rng, l, c.pick(6, 10))})
    cases += gen.cases_from(gen.rlogs(c.seed, c.pick(200, 1200), 5, 6, 7), 'r',
                            extra=lambda i, l: {'runs': runs(rng, l, 5)})
    cases += gen.cases_from([gen.biglog(rng, 4, rng.choice([30, 80, 130]), 4) for _ in range(c.pick(20, 120))], 'b',
                            extra=lambda i, l: {'runs': [x for x in runs(rng, l, 6) if x['kind'][:3] != 'lap'][:3]})
    c.validate('TraceEntropy', c.drive('drv_efilter', cases))
