import random, gen, patcases

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT Exact\nINVARIANT Prefix\nINVARIANT Covered\n'
       'CONSTANTS NC=%d NS=%d\n')
KINDS = ['maximal', 'super', 'near', 'tandem_max', 'tandem_prim']


def run(c):
    r = c.model('MCHierarchy', CFG % c.pick((3, 4), (3, 5)), 'MCHierarchy')
    cases = [x['sets'] for x in r.cases]
    r = c.model('MCHierarchy', CFG % (4, 6), 'MCHierarchy-sim', simulate=('num=%d' % c.pick(250, 3000), 16), seed=c.seed, workers=1)
    cases += [x['sets'] for x in r.cases if len(x['sets']) == 6]
    rng = random.Random(c.seed)
    out = []
    for i, sets in enumerate(cases):
        collide = i % 4 == 3 and max([len(x) for x in sets] + [0]) > 1
        if collide:                     # names for which the polynomial hashes of different sets are equal
            sets = [[[1, 3, 4, 5][x] for x in s] for s in sets]
        traces, pats = [[]], [[]]
        for s in sets:
            w = list(s) + [rng.choice(s) for _ in range(rng.randint(0, 2))]
            rng.shuffle(w)
            if rng.random() < 0.5:
                traces.append([])
                pats.append([])
            pats[-1].append([len(traces[-1]), len(w)])
            traces[-1] += w
            if rng.random() < 0.2:      # a second occurrence of the set
                j = rng.randrange(len(pats))
                if pats[j]:
                    pats[j].append(rng.choice(pats[j]))
        out.append({'t': 'f%d' % i, 'log': traces, 'patterns': pats, 'scheme': 5 if collide else i % 4, 'ops': [
            {'op': 'sets', 'part': i % 2 == 0}, {'op': 'tree', 'level': i % 3, 'custom': i % 5 == 0},
            {'op': 'sets', 'part': i % 2 == 1, 'map': [1, 0, 0, 2, 2, 3]}, {'op': 'tree', 'level': 0, 'custom': i % 7 == 0, 'map': [1, 0, 0, 2, 2, 3]}]})
    for i in range(c.pick(250, 2500)):
        l = [patcases.loopy(rng, rng.randint(2, 6), 10) for _ in range(rng.randint(0, 3))]
        ps = [[[a, b] for a, b in ((rng.randrange(len(t)), rng.randint(1, 4)) for _ in range(rng.randint(0, 3))) if a + b <= len(t)] if t else []
              for t in l]
        ops = [{'op': 'sets', 'part': True}, {'op': 'tree', 'level': 2, 'custom': False}]
        for _ in range(3):
            ops.append({'op': 'discover', 'kind': rng.choice(KINDS), 'bound': rng.choice([3, 4, 20]), 'merged': rng.random() < 0.5,
                        'level': rng.randint(0, 3), 'map': rng.choice([None, None, [0, 0, 1, 2, 3, 3], [2, 1, 0, 1, 3, 3]])})
        # names that make hashes of short sequences collide
        out.append({'t': 'r%d' % i, 'log': l, 'patterns': ps, 'scheme': 5 if i % 5 == 0 else i % 4, 'ops': ops})
    for x in out:
        for o in x['ops']:
            if not o.get('map'):
                o.pop('map', None)
    c.validate('TraceHierarchy', c.drive('drv_hierarchy', out))
