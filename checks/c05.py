import random, gen


def run(c):
    cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT ScanExact\nINVARIANT Flow\n'
           'INVARIANT IgnoreIsRemove\nCONSTANTS NC=%d NT=%d NL=%d NE=%d\n')
    r = c.model('MCLogInfo', cfg % c.pick((3, 3, 3, 4), (3, 3, 4, 6)))
    logs = [x['log'] for x in r.cases]
    cases = gen.cases_from(logs, 'm')
    cases += gen.cases_from(gen.rlogs(c.seed, c.pick(150, 800), 6, 6, 9), 'r')
    rng = random.Random(c.seed + 3)
    cases += gen.cases_from([gen.biglog(rng, 5, rng.choice([60, 150, 300]), 5) for _ in range(c.pick(12, 60))], 'b')
    h = c.drive('drv_loginfo', cases)
    c.validate('TraceLogInfo', h)
