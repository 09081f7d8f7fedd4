import random
import gen, rust
from c23 import NAMES

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nINVARIANT JoinFinds\nINVARIANT Starts\nINVARIANT Reached\nINVARIANT NonNegative\nINVARIANT Clean\n'
       'CONSTANTS NC=%d NT=%d NL=%d\n')
CODE = {'c1': 0, 'c2': 1, 'c3': 2}


def how(rng):
    return rng.choice(['fn', 'part'])


def params(rng):
    if rng.random() < 0.4:
        return [32, 1, 48, 32, 32]
    return [rng.choice([0, 16, 32, 40, 48, 57]), rng.randint(0, 3), rng.choice([0, 32, 48, 64]), rng.choice([0, 16, 32, 42, 60]), rng.choice([0, 16, 32, 48, 60])]


def steps(rng, ensure=True):
    op = rng.choice(['alpha', 'alpha', 'plus', 'plus', 'plusplus', 'heur', 'heur'])
    s = {'op': op, 'how': how(rng)}
    if op == 'heur':
        s['p'] = params(rng)
    out = [s]
    if ensure and rng.random() < 0.25:
        out.append({'op': 'ensure', 'how': how(rng)})
    return out


def structured(rng):
    """logs of block-structured processes: what discovery is made for"""
    n = rng.randint(2, 6)
    def tree(cs, d):
        if len(cs) == 1 or d == 0:
            x = ('leaf', cs[0])
            if rng.random() < 0.2:
                return ('loop1', cs[0])
            return x
        k = rng.randint(1, len(cs) - 1)
        return (rng.choice(['seq', 'seq', 'xor', 'and', 'loop']), tree(cs[:k], d - 1), tree(cs[k:], d - 1))
    def play(t):
        if t[0] == 'leaf':
            return [t[1]]
        if t[0] == 'loop1':
            return [t[1]] * rng.randint(0, 3)
        if t[0] == 'seq':
            return play(t[1]) + play(t[2])
        if t[0] == 'xor':
            return play(rng.choice(t[1:]))
        if t[0] == 'loop':
            out = play(t[1])
            for _ in range(rng.choice([0, 0, 1, 2])):
                out += play(t[2]) + play(t[1])
            return out
        a, b = play(t[1]), play(t[2])
        out = []
        while a or b:
            x = rng.choice([y for y in (a, b) if y])
            out.append(x.pop(0))
        return out
    cs = list(range(n))
    rng.shuffle(cs)
    t = tree(cs, 3)
    return [play(t)[:12] for _ in range(rng.randint(1, 12))]


def logs(c, rng, quick, thorough):
    out = []
    for i in range(c.pick(quick, thorough)):
        k = rng.random()
        out.append(structured(rng) if k < 0.6 else gen.rlog(rng, rng.randint(1, 5), 5, 7) if k < 0.9 else gen.rlog(rng, 3, 3, 3))
    return out


def run(c):
    r = c.model('MCRsNets', CFG % c.pick((3, 2, 3), (3, 3, 3)), timeout=800)
    rng = random.Random(c.seed)
    ms = [[[CODE[x] for x in tr] for tr in x['log']] for x in r.cases]
    ms = ms if len(ms) <= c.pick(2000, 12000) else rng.sample(ms, c.pick(2000, 12000))
    cases = [{'t': 'm%d' % i, 'log': l, 'names': rng.choice(NAMES)[:3], 'steps': steps(rng)} for i, l in enumerate(ms)]
    cases += [{'t': 'r%d' % i, 'log': l, 'names': rng.choice(NAMES), 'steps': steps(rng)} for i, l in enumerate(logs(c, rng, 1500, 8000))]
    c.validate('TraceRsNets', rust.drive(c, 'rs_nets', cases))
