import random, gen


def rpred(rng):
    k = rng.choice(['cls', 'idmod', 'idmod', 'life', 'note', 'all', 'none'])
    if k == 'cls':
        return {'k': k, 'v': rng.randrange(5)}
    if k == 'idmod':
        m = rng.randint(2, 4)
        return {'k': k, 'm': m, 'v': rng.randrange(m)}
    return {'k': k}


def rops(rng, n):
    out = []
    for _ in range(n):
        op = rng.choice(['remove', 'removemany', 'removepred', 'count', 'rename', 'extract', 'edit', 'lifecycle', 'endpoints'])
        s = {'op': op}
        if op == 'remove':
            s['c'] = rng.randrange(6)
        elif op == 'removemany':
            s['cs'] = rng.sample(range(6), rng.randint(0, 3))
        elif op == 'removepred':
            s['p'] = rpred(rng)
        elif op == 'count':
            s['n'] = rng.randint(0, 4)
        elif op == 'rename':
            s['map'] = [rng.randrange(6) for _ in range(6)]
        elif op == 'extract':
            s['map'] = [rng.randrange(6) for _ in range(6)]
            s['p'] = rpred(rng)
        elif op == 'edit':
            s['p'] = rpred(rng)
            s['v'] = rng.randint(1, 9)
        out.append(s)
    return out


def run(c):
    cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT RemovalExact\nINVARIANT EditKeeps\n'
           'INVARIANT Idempotent\nCONSTANTS NC=%d NT=%d NL=%d NE=%d NOps=%d\n')
    r = c.model('MCEdits', cfg % c.pick((2, 2, 3, 4, 1), (2, 2, 3, 4, 2)))
    cases = [{'t': 'm%d' % i, 'scheme': i % 4, 'salt': i, 'log': x['log'], 'ops': x['ops']} for i, x in enumerate(r.cases)]
    rng = random.Random(c.seed)
    for i in range(c.pick(1500, 8000)):
        cases.append({'t': 'r%d' % i, 'scheme': i % 4, 'salt': i, 'log': gen.rlog(rng, 5, 4, 7), 'ops': rops(rng, rng.randint(1, 6))})
    c.validate('TraceEdits', c.drive('drv_edits', cases))
