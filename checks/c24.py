import random
import gen, rust
from c23 import CFG, NAMES, dress, steps


def run(c):
    r = c.model('MCRsLogs', CFG % c.pick((2, 2, 2, 1), (3, 2, 2, 1)))
    rng = random.Random(c.seed + 5)
    logs = [x['log'] for x in r.cases]
    uniq = [list(map(list, u)) for u in sorted({tuple(map(tuple, l)) for l in logs})]
    cases = [dress(rng, {'t': 'm%d' % i, 'log': l, 'opt': 'e', 'steps': [{'op': 'look'}]}, rng.choice(NAMES)[:3]) for i, l in enumerate(uniq)]
    cases += [dress(rng, {'t': 'e%d' % i, 'log': x['log'], 'opt': 'e', 'steps': [{'op': 'look'}] + x['steps']}, rng.choice(NAMES)[:2])
              for i, x in enumerate(rng.sample(r.cases, min(len(r.cases), c.pick(600, 4000))))]
    for i in range(c.pick(300, 2000)):
        log = gen.rlog(rng, rng.randint(1, 5), 6, 6)
        names = rng.choice(NAMES)
        cases.append(dress(rng, {'t': 'r%d' % i, 'log': log, 'opt': 'e', 'steps': [{'op': 'look'}] + [s for s in steps(rng, log, names, rng.randint(0, 2)) if s['op'] != 'add']}, names))
    c.validate('TraceRsLogs', rust.drive(c, 'rs_logs', cases))
