import random

FX = ['seta', 'setb', 'newa', 'newb'] * 2 + ['nul']


class G:
    def __init__(self, rng, failp):
        self.r, self.n, self.failp = rng, 0, failp

    def part(self):
        self.n += 1
        return {'k': 'p', 'fx': 'fail' if self.r.random() < self.failp else self.r.choice(FX), 'id': self.n}

    def seq(self, d, n, lo=0):
        return [self.item(d) for _ in range(self.r.randint(lo, n))]

    def item(self, d):
        x = self.r.random()
        if d == 0 or x < 0.45:
            return self.part()
        k = self.r.choice(['if', 'copy', 'temp', 'par', 'par'])
        if k == 'if':
            return {'k': 'if', 'c': self.r.choice(['hasa', 'hasb']), 'b': self.seq(d - 1, 3)}
        if k == 'par':
            return {'k': 'par', 'bs': [self.seq(d - 1, 3) for _ in range(self.r.randint(1, 3))]}
        return {'k': k, 'b': self.seq(d - 1, 3)}


def rctx(rng):
    if rng.random() < 0.1:
        return [-1, -1, -1]
    return [rng.choice([0, 901]), rng.choice([0, 902]), rng.choice([0, 903])]


def history(rng):
    """A random edit/execute history. Mirrors only the length of the list to stay within its bounds."""
    g = G(rng, rng.choice([0, 0, 0.08]))
    ops, n = [], 0
    items = g.seq(2, 4)
    if rng.random() < 0.5:
        items.insert(rng.randint(0, len(items)), {'k': 'none'})
    if rng.random() < 0.3:
        bad = list(items)
        bad.insert(rng.randint(0, len(bad)), {'k': 'bad', 'v': rng.randrange(6)})
        ops.append({'op': 'build', 'items': bad, 'valid': False})
    ops.append({'op': 'build', 'items': items, 'valid': True})
    n = len([x for x in items if x['k'] != 'none'])
    ops.append({'op': 'exec', 'ctx': rctx(rng)})
    for _ in range(rng.randint(0, 6)):
        x = rng.random()
        if x < 0.25:
            ops.append({'op': 'append', 'item': g.item(2)})
            n += 1
        elif x < 0.5:
            ops.append({'op': 'insert', 'i': rng.randint(0, n), 'item': g.item(2)})
            n += 1
        elif x < 0.7 and n:
            ops.append({'op': 'remove', 'i': rng.randrange(n)})
            n -= 1
        else:
            ops.append({'op': 'exec', 'ctx': rctx(rng)})
    ops.append({'op': 'exec', 'ctx': rctx(rng)})
    return ops


def run(c):
    r = c.model('MCPipelines', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT Refines\n'
                'INVARIANT Prefix\nINVARIANT FailLast\nCONSTANTS Wide=%s\n' % c.pick('FALSE', 'TRUE'))
    cases = [{'t': 'm%d' % i, 'salt': i, 'ops': [{'op': 'build', 'items': x['prog'], 'valid': True},
                                                 {'op': 'exec', 'ctx': [0, 0, 0]}]} for i, x in enumerate(r.cases)]
    rng = random.Random(c.seed)
    for i in range(c.pick(1500, 12000)):
        cases.append({'t': 'r%d' % i, 'salt': i, 'ops': history(rng)})
    c.validate('TracePipelines', c.drive('drv_pipelines', cases))
