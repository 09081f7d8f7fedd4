import random, actcases as A


def run(c):
    r = c.model('MCActivities', A.CFG % c.pick((3, 4, 2), (3, 5, 3)))
    rng = random.Random(c.seed)
    g = A.Gen(rng)
    cases = []
    for i, (sets, narrow, log) in enumerate(A.grouped(r)):
        cases.append({'t': 'm%d' % i, 'log': log, 'scheme': i % 4, 'ops': [
            {'op': 'sets', 'sets': sets, 'level': 0, 'add': False},
            {'op': 'instances', 'fn': i % 2 == 0, 'narrow': narrow, 'filter': {'k': 'all'}},
            {'op': 'instances', 'fn': i % 2 == 1, 'narrow': narrow, 'filter': rng.choice(A.FILTERS)}]})
    for i in range(c.pick(500, 5000)):
        ops = rng.choice([lambda: [g.sets(), g.instances(), g.instances()],
                          lambda: [g.sets(), g.sets(add=True, level=1), g.instances()],
                          lambda: [g.discover(), g.instances(), g.discover(), g.instances()],
                          lambda: [g.high()], lambda: [g.high(), g.high()]])()
        cases.append({'t': 'r%d' % i, 'log': g.log(), 'scheme': i % 4, 'ops': ops})
    c.validate('TraceActivities', c.drive('drv_activities', A.strip(cases)))
