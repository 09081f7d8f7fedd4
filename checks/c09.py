import random, gen, patcases


def run(c):
    r = c.model('MCPatterns', patcases.CFG % (c.pick((3, 7), (3, 9)) + ('1, 2, 3, 5',)))
    rng = random.Random(c.seed)

    def ops(i, l):
        n = max([len(t) for t in l] + [0])
        bs = [10, 20, 3, max(0, n // 2), n // 2 + 1, n // 2 + 2, rng.randint(0, 8)]
        out = [{'op': o, 'bound': b, 'part': p} for o, b, p in
               [('tandem_max', 10, False), ('tandem_prim', 10, False), ('tandem_max', 20, True), ('tandem_prim', 20, True)]]
        for _ in range(4):
            out.append({'op': rng.choice(['tandem_max', 'tandem_prim']), 'bound': rng.choice(bs), 'part': rng.random() < 0.5,
                        'map': patcases.maps(rng)})
        return {'ops': out}
    cases = gen.cases_from(patcases.logs(c, r, 5, c.pick(16, 24)), 'm', extra=ops)
    for x in cases:
        if x['salt'] % 4 == 3 and max([e for t in x['log'] for e in t] + [0]) < 6:
            x['scheme'] = 5
    cases.append({'t': 'colliding-class-names', 'log': [[0, 4, 1, 4]], 'scheme': 4, 'salt': 0, 'ops': [
        {'op': 'tandem_max', 'bound': 10, 'part': False}]})
    for x in cases:
        for o in x['ops']:
            if o.get('map') and x['scheme'] == 5:
                o['map'] = [v % 6 for v in o['map'][:6]]
    c.validate('TracePatterns', c.drive('drv_patterns', cases))
