import random
import gen

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nINVARIANT EveryNameOnce\nINVARIANT OnlyReached\nINVARIANT LevelsPartition\n'
       'INVARIANT Bars\nINVARIANT Steps\nCONSTANTS NA=%d NN=%d NV=%d ND=%d NT=%d NL=%d\n')
NOACTS = {'kids': [], 'name': [], 'level': []}


def nested(rng, log, nc, depth=2):
    """some events are activities that stand for others"""
    def ev(c, d):
        if d and rng.random() < 0.3:
            return [c, [ev(rng.randrange(nc), d - 1) for _ in range(rng.randint(1, 3))]]
        return c
    return [[ev(c, depth) for c in t] for t in log]


def forest(rng, n):
    kids = [sorted(rng.sample(range(i + 1, n + 1), rng.randint(0, min(2, n - i)))) for i in range(1, n + 1)]
    return {'kids': kids, 'name': [rng.randrange(6) for _ in range(n)], 'level': [rng.randint(0, 2) for _ in range(n)]}


def instances(rng, log, n):
    out = []
    for t in log:
        p, row = 0, []
        while n and p < len(t):
            p += rng.choice([0, 0, 1])
            l = rng.randint(1, 3)
            if p + l > len(t):
                break
            row.append([rng.randint(1, n), p, l])
            p += l
        out.append(row)
    return out


def acts_steps(rng):
    return [{'op': 'acts', 'print': rng.random() < 0.7}, {'op': 'hashes'}, {'op': 'saveacts'}, {'op': 'saveinst', 'str': rng.random() < 0.5},
            {'op': 'indices'}, {'op': 'found'}]


def log_steps(rng, nc):
    return [{'op': 'names'}, {'op': 'info'}, {'op': 'dfg', 'sel': sorted(rng.sample(range(-2, nc), rng.randint(0, nc)))}, {'op': 'count'}]


def around(rng, nc):
    return {'op': 'around', 'inner': rng.choice(['expand', 'drop']), 'c': rng.randrange(nc)}


def scatter(rng):
    n = rng.randint(1, 9)
    return {'op': 'scatter', 'dim': rng.randint(1, 3), 'lab': rng.random() < 0.8, 'labels': [rng.randrange(4) for _ in range(n)],
            'known': sorted(rng.sample(range(5), rng.randint(0, 4))), 'pts': [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]}


def run(c):
    r = c.model('MCReports', CFG % c.pick((4, 2, 2, 2, 3, 2), (4, 3, 2, 2, 4, 3)))
    rng = random.Random(c.seed)
    cases = []
    ms = r.cases
    if len(ms) > c.pick(2500, 20000):
        ms = rng.sample(ms, c.pick(2500, 20000))
    for i, x in enumerate(ms):
        if 'log' in x:
            steps = log_steps(rng, 2) + ([{'op': 'hist', 'save': False}] if i % 4 == 0 and x['log'] else [])
            cases.append({'t': 'm%d' % i, 'scheme': i % 4, 'log': x['log'], 'acts': NOACTS, 'inst': [[] for _ in x['log']], 'steps': steps})
        else:
            n = len(x['name'])
            log = [[0] * rng.randint(0, 5) for _ in range(2)]
            cases.append({'t': 'm%d' % i, 'scheme': 0, 'log': log, 'acts': x, 'inst': instances(rng, log, n), 'steps': acts_steps(rng)})
    for i in range(c.pick(200, 2500)):
        nc = rng.randint(1, 6)
        n = rng.randint(0, 7)
        log = nested(rng, gen.rlog(rng, nc, 5, 8), 6)
        flat = all(not isinstance(e, list) for t in log for e in t)
        a = forest(rng, n)
        pool = acts_steps(rng) + log_steps(rng, 6) + [around(rng, 6)]
        if n and any(a['level'][j] == 0 for j in range(n) if not any(j + 1 in k for k in a['kids'])):
            pool.append({'op': 'level', 'level': 0})
        rng.shuffle(pool)
        steps = pool[:rng.randint(2, 8)]
        cases.append({'t': 'r%d' % i, 'scheme': i % 4, 'log': log, 'acts': a, 'inst': instances(rng, log, n), 'steps': steps})
    for i in range(c.pick(120, 1200)):
        nc = rng.randint(1, 5)
        log = gen.rlog(rng, nc, 6, 6, min_t=1)
        if not any(log):
            continue
        k = i % 6
        if k == 0:
            steps = [{'op': 'hist', 'save': rng.random() < 0.3}, {'op': 'hist', 'save': False}]
        elif k == 1:
            steps = [{'op': 'hists', 'logs': [gen.rlog(rng, nc, 5, 4, min_t=1) for _ in range(rng.randint(1, 5))]}]
        elif k == 2:
            steps = [{'op': 'entropy'}]
        elif k == 3:
            steps = [{'op': 'pos'}]
        elif k == 4:
            steps = [{'op': 'tillend', 'direct': rng.random() < 0.5, 'delta': rng.random() < 0.5}]
        else:
            steps = [scatter(rng) for _ in range(3)]
        cases.append({'t': 'p%d' % i, 'scheme': i % 4, 'log': log, 'acts': NOACTS, 'inst': [[] for _ in log], 'steps': steps})
    c.validate('TraceReports', c.drive('drv_reports', cases))
