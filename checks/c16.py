import random

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nPROPERTY FreshCopy\nPROPERTY Disjoint\nPROPERTY EditLocal\n'
       'PROPERTY SameElements\nCONSTANTS ND=%d NH=%d EMITALL=FALSE\n')
SIM = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nCONSTANTS ND=%d NH=%d EMITALL=FALSE\n'
TCFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT ReadsBack\nINVARIANT Clean\nINVARIANT Back\nCONSTANTS NC=3 NL=%d\n'
ALS = [',\nabc', ';|xyz', ',\n a.', ' -äß中', '\t,AB_']


def run(c):
    r = c.model('MCCopies', CFG % c.pick((3, 4), (4, 4)), label='exhaustive')
    progs = r.cases
    cap = c.pick(6000, 10000)
    rng = random.Random(c.seed)
    if len(progs) > cap:
        progs = rng.sample(progs, cap)
    # simulation prints every successor of the last but one state: keep a few per behaviour
    s = c.model('MCCopies', SIM % (14, 8), label='long', simulate=('num=%d' % c.pick(40, 150), 20), seed=c.seed, workers=1)
    s.cases = rng.sample(s.cases, min(len(s.cases), c.pick(300, 400)))
    cases = [{'t': 'p%d' % i, 'prog': p} for i, p in enumerate(progs)]
    cases += [{'t': 's%d' % i, 'prog': p} for i, p in enumerate(s.cases)]
    hists = c.drive('drv_copies', cases)
    for i in range(0, len(hists), 3500):
        c.validate('TraceCopies', hists[i:i + 3500])

    r = c.model('MCTexts', TCFG % c.pick(6, 8))
    ms = r.cases if len(r.cases) < 4000 else rng.sample(r.cases, 4000)
    cases = []
    # characters of the model: 1, 2 separators, 3.. letters; alphabets start with the separators
    for i in range(0, len(ms), 8):
        ops = []
        for x in ms[i:i + 8]:
            ops.append({'op': 'parse', 'lines': [x['t']], 'es': x['es'], 'ts': [2], 'fn': i // 8 % 6})
        cases.append({'t': 'm%d' % i, 'al': ALS[i // 8 % len(ALS)], 'ops': ops})
    word = lambda lo, hi: [rng.randint(3, 5) for _ in range(rng.randint(lo, hi))]
    seps = [([1], [2], [2, 2]), ([2], [1], [1, 1]), ([1, 2], [2, 1], [1]), ([1], [1, 1], [2]), ([1, 1], [2], [2, 2, 1])]
    for i in range(c.pick(200, 2000)):
        ops = []
        for _ in range(6):
            es, ts, ls = rng.choice(seps)
            log = lambda lo=1: [[word(1, 3) for _ in range(rng.randint(lo, 4))] for _ in range(rng.randint(lo, 4))]
            line = lambda: [rng.randint(1, 5) for _ in range(rng.randint(0, 10))]
            k = rng.choice(['parse', 'write', 'writeall'])
            if k == 'parse':
                ops.append({'op': k, 'lines': [line() for _ in range(rng.randint(1, 4))], 'es': es, 'ts': ts, 'fn': rng.randint(0, 5)})
            elif k == 'write' and not set(es) & set(ts):
                ops.append({'op': k, 'log': log(), 'es': es, 'ts': ts})
            else:
                ops.append({'op': 'writeall', 'logs': [log(0) for _ in range(rng.randint(0, 3))], 'es': es, 'ts': ts, 'ls': ls})
        cases.append({'t': 'r%d' % i, 'al': rng.choice(ALS), 'ops': ops})
    c.validate('TraceTexts', c.drive('drv_texts', cases))
