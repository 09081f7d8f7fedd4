import random

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Delivered\nINVARIANT Addressed\nINVARIANT ReleasedOnce\nINVARIANT Released\n'
       'INVARIANT NotReleased\nINVARIANT SameAsMeaning\nCONSTANTS NW=%d NL=%d NRUN=%d\n')
LIVE = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Finishes\nCONSTANTS NW=1 NL=2 NRUN=1\n'
SCRIPTS = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Quiet\nCONSTRAINT Emit\nCONSTANTS NW=2 NL=%d NRUN=1\n'
TREES = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Every\nCONSTRAINT Emit\nCONSTANTS NT=%d\n'


def fill(rng, script, w, cbs):
    """positions of the script's receivers in a tree with w of them; values for each result"""
    res = []
    perm = rng.sample(range(1, w + 1), w)
    for m in script:
        m = dict(m)
        if m['k'] == 'part':
            u = m['u']
            if u and w == 0:
                u = 0
            elif u:
                u = perm[(u - 1) % w]
            m['u'] = u
            m['boom'] = m['boom'] and u in cbs
            ks = rng.sample(range(9), rng.randint(0, 3))
            m['v'] = [[k, rng.randint(0, 60)] for k in ks]
        res.append(m)
    return res


def waiting(tree):
    res = []
    for it in tree:
        k = it['k']
        if k == 'cluster':
            res += ['silent'] + waiting(it['b'])
        elif k == 'around':
            res += ['info'] + waiting(it['b']) + ['info']
        elif k in ('until', 'each'):
            res += waiting(it['b'])
        elif k != 'plain':
            res.append(k)
    return res


def deep(rng, n, d):
    res = []
    for i in range(n):
        k = rng.choice(['cb', 'cb', 'plain', 'num', 'info', 'names'] + ['until', 'each', 'cluster', 'around'] * (2 if d else 0))
        it = {'k': k, 'id': rng.randint(1, 12) if k == 'cb' else 0}
        if k in ('until', 'each', 'cluster', 'around'):
            it['b'] = deep(rng, rng.randint(0, 3), d - 1)
        res.append(it)
    return res


def run(c):
    c.model('MCBackend', CFG % c.pick((2, 4, 2), (3, 5, 2)), label='protocol')
    c.model('MCBackend', LIVE, label='termination')
    scripts = c.model('MCBackend', SCRIPTS % c.pick(3, 4), label='scripts').cases
    trees = c.model('MCBackendTrees', TREES % c.pick(3, 4), label='trees').cases
    rng = random.Random(c.seed)
    cap = c.pick(3000, 12000)
    if len(scripts) > cap:
        scripts = rng.sample(scripts, cap)
    cases = []
    pos = 0
    rng.shuffle(trees)
    trees = [x['tree'] for x in trees][:c.pick(700, 4000)] + [deep(rng, rng.randint(1, 5), 3) for _ in range(c.pick(200, 2000))]
    n = max(len(trees), len(scripts) // 3)
    for i in range(n):
        tree = trees[i % len(trees)]
        w = waiting(tree)
        cbs = {j + 1 for j, k in enumerate(w) if k == 'cb'}
        runs = []
        cs = [rng.randint(0, 3), rng.randint(0, 3)]
        for r in range(3):
            sc = scripts[pos % len(scripts)]
            pos += 1
            # for wide trees: more results than the scripts of the model hold
            if len(w) > 2 and r == 2:
                sc = [{'k': 'part', 'u': rng.randint(0, len(w)), 'boom': False} for _ in range(rng.randint(1, 12))] + sc
                k = len(w)
                s2 = fill(rng, sc, len(w), cbs)
            else:
                s2 = fill(rng, sc, len(w), cbs)
            runs.append({'op': 'run', 'addr': rng.choice(['default', 'named']), 'c': cs[r % 2], 'script': s2})
        cases.append({'t': 'b%d' % i, 'tree': tree, 'runs': runs})
    c.validate('TraceBackend', c.drive('drv_backend', cases))
