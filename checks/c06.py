import random, gen

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT NoStuck\nINVARIANT Limits\n'
       'INVARIANT InRange\nINVARIANT IgnoreIsRemove\nINVARIANT FastIsRef\nCONSTANTS NC=%d NT=%d NL=%d NE=%d\n')


def run(c):
    r = c.model('MCEntropy', CFG % c.pick((3, 3, 2, 4), (3, 3, 3, 5)))
    cases = gen.cases_from([x['log'] for x in r.cases], 'm')
    cases += gen.cases_from(gen.rlogs(c.seed, c.pick(120, 600), 5, 7, 8), 'r')
    rng = random.Random(c.seed + 2)
    # rare behaviour in large logs; the table of logarithms is too small for their Laplace entropies
    cases += gen.cases_from([gen.biglog(rng, 4, rng.choice([40, 120, 250, 450]), 4) for _ in range(c.pick(24, 150))], 'b',
                            extra=lambda i, l: {'big': True})
    c.validate('TraceEntropy', c.drive('drv_entropy', cases))
