import random, actcases as A


def run(c):
    r = c.model('MCActivities', A.CFG % c.pick((3, 4, 2), (3, 5, 3)))
    rng = random.Random(c.seed)
    g = A.Gen(rng, free=True)
    cases = []
    for i, (sets, narrow, log) in enumerate(A.grouped(r)):
        cut = rng.randint(0, len(sets))
        cases.append({'t': 'm%d' % i, 'log': log, 'scheme': i % 4, 'ops': [
            {'op': 'sets', 'sets': sets[cut:], 'level': 0, 'add': False},
            {'op': 'instances', 'fn': i % 2 == 0, 'narrow': narrow, 'filter': rng.choice(A.FILTERS)}, {'op': 'unattached'},
            {'op': 'sets', 'sets': sets[:cut], 'level': 1, 'add': True},
            {'op': 'fill', 'min': i % 3 + 1, 'narrow': narrow, 'filter': {'k': 'all'}}, {'op': 'unattached'}]})
    for i in range(c.pick(450, 4000)):
        first = rng.choice([lambda: [g.sets(), g.instances()], lambda: [g.high()], lambda: [g.sets(), g.given()],
                            lambda: [g.sets(nc=2), g.instances()]])()
        maps = rng.choice(A.NEST + [[[0, 0, 1, 2, 3, 3]], [[0, 1, 2, 3, 4, 5], [1, 1, 0, 3, 3, 2]]])
        maps = [list(m) for m in maps]
        ops = rng.choice([lambda: first + [{'op': 'unattached'}, g.fill(), {'op': 'unattached'}, g.fill()],
                          lambda: first + [g.sets(add=True, level=1), g.fill(), g.sets(add=True, level=2), g.fill(), {'op': 'unattached'}],
                          lambda: first + [g.adjust(1), {'op': 'unattached'}, g.adjust(2)],
                          lambda: [g.adjust(0), g.adjust(1), {'op': 'unattached'}],
                          lambda: [g.levels(maps)], lambda: first + [g.levels(maps, 1), {'op': 'unattached'}]])()
        cases.append({'t': 'r%d' % i, 'log': g.log(), 'scheme': i % 4, 'ops': ops})
    c.validate('TraceActivities', c.drive('drv_activities', A.strip(cases)))
