import random, actcases as A


def run(c):
    r = c.model('MCActivities', A.CFG % c.pick((2, 5, 2), (3, 5, 2)))
    rng = random.Random(c.seed)
    g = A.Gen(rng)
    cases = []
    for i, (sets, narrow, log) in enumerate(A.grouped(r)):
        st = ['all', 'single', 'none'][i % 3]
        ops = [{'op': 'sets', 'sets': sets, 'level': 0, 'add': False},
               {'op': 'instances', 'fn': True, 'narrow': narrow, 'filter': rng.choice(A.FILTERS)},
               {'op': 'abstract', 'strategy': st, 'hashes': i % 2 == 0}, {'op': 'count'}]
        if st == 'all':
            ops += [{'op': 'substitute'}, {'op': 'count'}]
        cases.append({'t': 'm%d' % i, 'log': log, 'scheme': i % 4, 'ops': ops})
    for i in range(c.pick(500, 4000)):
        first = lambda: rng.choice([lambda: [g.sets(), g.instances()], lambda: [g.high()], lambda: [g.sets(), g.given()]])()
        rounds = []
        for _ in range(rng.randint(1, 3)):
            rounds += [{'op': 'clear'}] + first() + [g.abstract(), {'op': 'count'}]
        ops = rng.choice([lambda: first() + [g.abstract(last=True), {'op': 'count'}],
                          lambda: rounds + [{'op': 'substitute'}, {'op': 'count'}],
                          lambda: rounds + first() + [g.abstract(last=True), {'op': 'count'}],
                          lambda: [g.until(), {'op': 'count'}, {'op': 'substitute'}],
                          lambda: first() + [g.abstract(), {'op': 'clear'}, g.until(), {'op': 'count'}, {'op': 'substitute'}]])()
        cases.append({'t': 'r%d' % i, 'log': g.log(), 'scheme': i % 4, 'ops': ops})
    c.validate('TraceActivities', c.drive('drv_activities', A.strip(cases)))
