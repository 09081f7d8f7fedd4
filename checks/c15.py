import random, actcases as A


def run(c):
    r = c.model('MCActivities', A.CFG % c.pick((3, 4, 2), (3, 5, 2)))
    rng = random.Random(c.seed)
    g = A.Gen(rng, free=True)
    cases = []
    for i, (sets, narrow, log) in enumerate(A.grouped(r)):
        cut = rng.randint(0, len(sets))
        cases.append({'t': 'm%d' % i, 'log': log, 'scheme': i % 4, 'ops': [
            {'op': 'sets', 'sets': sets[cut:], 'level': i % 2, 'add': False},
            {'op': 'sets', 'sets': sets[:cut], 'level': 1, 'add': True},
            {'op': 'instances', 'fn': i % 2 == 0, 'narrow': narrow, 'filter': {'k': 'all'}},
            {'op': 'split', 'level': 0}, {'op': 'split', 'level': 1, 'map': rng.choice(A.MAPS)}, {'op': 'split', 'level': 2}]})
    for i in range(c.pick(450, 4000)):
        first = rng.choice([lambda: [g.sets(), g.instances()], lambda: [g.high()], lambda: [g.sets(), g.given()]])()
        maps = [list(m) for m in rng.choice(A.NEST)]
        pro = lambda: {'op': 'promote', 'level': rng.randint(0, 2), 'maps': maps, 'adjust': rng.random() < 0.6}
        split = lambda: {'op': 'split', 'level': rng.randint(0, 2), 'map': rng.choice(A.MAPS)}
        ops = rng.choice([lambda: first + [split(), split()],
                          lambda: first + [g.adjust(1), split(), g.adjust(2), split(), split()],
                          lambda: [g.levels(maps), split(), pro(), pro(), pro()],
                          lambda: [g.levels(maps), pro(), split(), pro()],
                          lambda: [g.levels(maps, 1), split(), split()],
                          # instances as a caller may give them, with more or fewer classes than their activity
                          lambda: [g.sets(), g.sets(True, 1), g.given(), pro(), pro(), pro()]])()
        cases.append({'t': 'r%d' % i, 'log': g.log(nc=6), 'scheme': i % 4, 'ops': ops})
    c.validate('TraceActivities', c.drive('drv_activities', A.strip(cases)))
