import random
import rust
from c23 import NAMES
from gen import rlog, biglog

OPS = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%sINVARIANT Sound\nINVARIANT MergeKeeps\nCONSTANTS Part = "ops" NC = 1 NT = 1 NL = 1 ND = %d\n')
FUZZY = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%sINVARIANT NothingLost\nINVARIANT Real\n'
         'CONSTANTS Part = "fuzzy" NC = %d NT = %d NL = %d ND = 0\n')
SAFE = [x for x in NAMES if not set(''.join(x)) & set(',[]') and '' not in x]


def op(o, a=0, b=0, w=0, c=()):
    return {'op': o, 'a': a, 'b': b, 'w': w, 'c': list(c)}


def history(rng, n):
    """a graph grown, cut and merged; also with nodes that are not there"""
    st, live, total, edges = [], [], 0, set()
    for _ in range(n):
        x = rng.random()
        if x < 0.25 or not live:
            st.append(op('add', w=rng.choice([0, 0, 0, -1])))
            total += 1
            live.append(total)
        elif x < 0.75:
            pick = lambda: rng.choice(live) if rng.random() < 0.9 else rng.randint(1, total + 1)
            a, b = pick(), pick()
            edges.add((a, b))
            st.append(op('connect', a, b, rng.choice([-1, 0, 1, 2, 3, 10])))
        elif x < 0.88 and edges:
            a, b = rng.choice(sorted(edges)) if rng.random() < 0.8 else (rng.randint(1, total), rng.randint(1, total))
            st.append(op('cut', a, b))
        else:
            c = rng.sample(live, rng.randint(1, min(len(live), 4)))
            st.append(op('merge', c=c))
            total += 1
            live = [x for x in live if x not in c] + [total]
    return st + [op('default')]


def few(log):
    """every class pair has at most ten pairs, so that averages of multiples of 2520 are whole"""
    cs = {}
    for t in log:
        for e in t:
            cs[e] = cs.get(e, 0) + 1
    return all(v <= 10 for v in cs.values())


def hubs(rng, nc):
    """a frequent class or two and many rare ones that follow each other"""
    tr = []
    for _ in range(rng.randint(2, 4)):
        cs = rng.sample(range(1, nc), rng.randint(2, nc - 1))
        for _ in range(rng.choice([0, 1, 1, 2])):
            cs.insert(rng.randint(0, len(cs)), 0)
        tr.append(cs)
    return tr


def rounds(rng, nc):
    """traces that come back to a frequent class again and again"""
    tr = []
    for _ in range(rng.randint(2, 5)):
        t = []
        for _ in range(rng.randint(1, 3)):
            t += [0] + [rng.randrange(1, nc) for _ in range(rng.randint(1, 4))]
        tr.append(t + [0] * (rng.random() < 0.7))
    return tr


def timed(rng, log):
    out = []
    for t in log:
        at, tr = rng.randint(0, 5), []
        for e in t:
            at += rng.choice([0, 1, 1, 2, 3, 7]) if rng.random() < 0.95 else -rng.randint(1, 3)
            tr.append([e + 1, at * 2520])
        out.append(tr)
    return out


def params(rng):
    return {'un': rng.choice([0, 0, 0, 1, 2]), 'bi': rng.choice([0, 0, 0, 1, 2]), 'pres': rng.choice([0, 0, 20, 60, 90, 126]), 'ratio': rng.choice([1, 5, 20, 60]),
            'rate': rng.choice([0, 1, 2, 3, 4]), 'edge': rng.choice([0, 0, 16, 32, 48, 64]), 'node': rng.choice([0, 2, 3, 4, 6, 100])}


def named(rng, n):
    x = rng.choice([x for x in SAFE if len(x) >= n] + [['n%d' % i for i in range(n)]])
    return ['-'] + rng.sample(x, n)


def run(c):
    rng = random.Random(c.seed)
    r = c.model('MCRsGraphs', OPS % ('INVARIANT Emit\n', c.pick(3, 4)), label='ops')
    ops = rng.sample(r.cases, min(len(r.cases), c.pick(1500, 20000)))
    cases = [{'t': 'o%d' % i, 'kind': 'ops', 'steps': [op('add'), op('add')] + h + [op('default')]} for i, h in enumerate(ops)]
    cases += [{'t': 'h%d' % i, 'kind': 'ops', 'steps': history(rng, rng.randint(3, 16))} for i in range(c.pick(1500, 15000))]
    fz = []
    for nc, nt, nl in c.pick(((2, 2, 3), (3, 1, 4)), ((2, 2, 3), (3, 1, 5), (4, 1, 4))):
        r = c.model('MCRsGraphs', FUZZY % ('INVARIANT Emit\n', nc, nt, nl), label='fuzzy%d%d%d' % (nc, nt, nl))
        fz += rng.sample(r.cases, min(len(r.cases), c.pick(1200, 10000)))
    how = lambda: rng.choice(['fn', 'part'])
    for i, x in enumerate(fz):
        cases.append({'t': 'm%d' % i, 'kind': 'fuzzy', 'names': named(rng, 4), 'log': x['log'], 'steps': [{'op': 'mine', 'how': how(), 'q': x['q']}]})
    n = 0
    while n < c.pick(2500, 20000):
        nc = rng.randint(2, 8)
        x = rng.random()
        log = hubs(rng, max(nc, 5)) if x < 0.45 else rounds(rng, max(nc, 5)) if x < 0.6 else rlog(rng, nc, rng.randint(1, 5), rng.randint(1, 8), min_t=1) if x < 0.9 else biglog(rng, nc, rng.randint(2, 6), 5)
        if not few(log):
            continue
        qs = [params(rng) for _ in range(rng.randint(1, 3))]
        if x < 0.6:
            qs = [dict(q, un=0, bi=0, pres=rng.choice([0, 0, q['pres']]), edge=rng.choice([0, 0, q['edge']]), node=rng.choice([2, 3, 4, 5])) for q in qs]
        # orders differ from call to call
        cases.append({'t': 'r%d' % n, 'kind': 'fuzzy', 'names': named(rng, max(nc, 5)), 'log': timed(rng, log), 'steps': [{'op': 'mine', 'how': how(), 'q': q} for q in qs for _ in range(2)]})
        n += 1
    rng.shuffle(cases)
    c.validate('TraceRsGraphs', rust.drive(c, 'rs_graphs', cases))
