import random, gen

LOGS = [
    [[0, 2, 0, 2, 4, 0, 2], [1, 3, 1, 3, 0], [0, 2, 4]],
    [[0, 1, 2, 0, 1, 2, 3], [0, 1, 2, 3, 3, 3]],
    [[0, 1, 0, 1, 2, 3, 2, 3], [4, 0, 1, 4, 2, 3], []],
    [[0, 2, 2, 0, 2, 2, 1, 3]],
    [[0, 1, 2], [0, 1, 2], [0, 2, 1], [4]],
    [[]],
]


def run(c):
    base = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Isolated\nINVARIANT TypeOK\nCONSTRAINT Emit\n'
    r = c.model('MCContexts', base + 'CONSTANTS NPre=%d NIn=%d\n' % c.pick((1, 1), (2, 1)), label='exhaustive')
    progs = list(r.cases)
    s = c.model('MCContexts', base + 'CONSTANTS NPre=%d NIn=%d\n' % c.pick((4, 2), (5, 3)), label='simulated',
                simulate=('num=%d' % c.pick(4000, 40000), 14), seed=c.seed, workers=1)
    sim = s.cases
    seen, uniq = set(), []
    for x in progs + sim:
        k = (tuple(x['pre']), tuple(x['inner']), x['kind'])
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    rng = random.Random(c.seed)
    lim = c.pick(5000, 60000)
    if len(uniq) > lim:
        uniq = rng.sample(uniq, lim)
    logs = LOGS + gen.rlogs(c.seed, 30, 5, 4, 8)
    cases = [dict(x, t='p%d' % i, log=logs[rng.randrange(len(logs))]) for i, x in enumerate(uniq)]
    c.validate('TraceContexts', c.drive('drv_contexts', cases))
