import random, gen

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT IsPartition\nINVARIANT NeverSeparatesEqual\n'
       'INVARIANT Exact\nINVARIANT MergeModel\nCONSTANTS NC=%d NT=%d NL=%d NE=%d\n')


def run(c):
    r = c.model('MCVariants', CFG % c.pick((3, 4, 3, 5), (4, 4, 3, 7)))
    cases = gen.cases_from([x['log'] for x in r.cases], 'm', schemes=5)
    cases += gen.cases_from(gen.rlogs(c.seed, c.pick(400, 4000), 5, 12, 6), 'r', schemes=5)
    cases += gen.cases_from(gen.rlogs(c.seed + 7, c.pick(100, 1000), 2, 20, 4), 'd', schemes=5)
    rng = random.Random(c.seed + 8)
    cases += gen.cases_from([gen.biglog(rng, 4, rng.choice([60, 150, 300]), 5) for _ in range(c.pick(12, 60))], 'b', schemes=5)
    c.validate('TraceVariants', c.drive('drv_variants', cases))
