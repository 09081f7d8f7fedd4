"""C22: nets discovered inductively replay the log."""
import random

CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Exact\nINVARIANT LabelsKept\nCONSTRAINT Emit\nCONSTANTS NL=%d NW=%d\n'
TABLES = [list('abcdefghijkl'), ['A.Start.1', 'A.Start.2', 'A.Stop.1', 'B', 'B.1', 'C', 'D', 'E', 'F', 'G', 'H', 'I'],
          ['pay now', 'ship, it', 'uß', '文字', 'tau', 'skip', '{a}', '<start>', '', 'None', '->', '"q"']]


def run(c):
    r = c.model('MCNets', CFG % c.pick((3, 4), (4, 4)), timeout=800)
    rng = random.Random(c.seed)

    def names():
        xs = rng.choice(TABLES)[:]
        rng.shuffle(xs)
        return {'c%d' % (i + 1): x for i, x in enumerate(xs)}

    def one(i, logs):
        return {'t': i, 'names': names(), 'steps': [{'log': l, 'times': rng.random() < .3, 'default': rng.random() < .5} for l in logs]}

    def spread(words):
        """words, some of them often and some once"""
        out = []
        for w in words:
            out += [w] * rng.choice([1, 1, 1, 2, 3, 30])
        rng.shuffle(out)
        return out
    cases = []
    words = r.cases
    rng.shuffle(words)
    for i, ws in enumerate(words[:c.pick(400, 12000)]):
        ws = sorted(ws)
        logs = [ws if len(ws) < 40 else rng.sample(ws, 40)]
        if len(ws) > 1:
            logs.append(spread(rng.sample(ws, rng.randint(1, min(len(ws), 12)))))
        cases.append(one('w%d' % i, logs))
    for i in range(c.pick(300, 6000)):
        nc = rng.choice([2, 3, 4, 6, 12])
        log = [['c%d' % rng.randint(1, nc) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))] for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        cases.append(one('r%d' % i, [spread(log)]))
    # regular behaviour with rare deviations
    for i in range(c.pick(60, 1000)):
        nc = rng.randint(3, 6)
        base = ['c%d' % (j + 1) for j in range(nc)]
        log = [base] * rng.choice([10, 40])
        for _ in range(rng.randint(1, 3)):
            w = base[:]
            x = rng.randrange(nc)
            how = rng.choice(['drop', 'swap', 'again', 'new', 'empty'])
            if how == 'drop':
                w.pop(x)
            elif how == 'swap':
                y = rng.randrange(nc)
                w[x], w[y] = w[y], w[x]
            elif how == 'again':
                w.insert(x, rng.choice(base))
            elif how == 'new':
                w.insert(x, 'c%d' % (nc + 1))
            else:
                w = []
            log = log + [w]
        rng.shuffle(log)
        cases.append(one('d%d' % i, [log]))
    c.validate('TraceNets', c.drive('drv_nets', cases, timeout=800), timeout=800)
