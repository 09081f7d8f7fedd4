import random, gen, patcases


def run(c):
    r = c.model('MCPatterns', patcases.CFG % (c.pick((3, 7), (3, 9)) + ('2',)))
    rng = random.Random(c.seed + 1)

    def ops(i, l):
        return {'ops': [{'op': o, 'part': rng.random() < 0.5, 'map': patcases.maps(rng) if k else None}
                        for k in (0, 1) for o in ('maximal', 'super', 'near')]}
    cases = gen.cases_from(patcases.logs(c, r, 4, c.pick(13, 18)), 'm', extra=ops)
    cases.append({'t': 'colliding-class-names', 'log': [[0, 4, 1, 5]], 'scheme': 4, 'salt': 0,
                  'ops': [{'op': 'maximal', 'part': False}]})
    c.validate('TracePatterns', c.drive('drv_patterns', cases))
