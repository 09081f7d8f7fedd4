import itertools, random
import rust
from c23 import NAMES
from c26 import CODE, how, logs, steps

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nINVARIANT Sound\nINVARIANT Complete\nINVARIANT NonNegative\n'
       'CONSTANTS NP=%d MaxSteps=%d MaxTok=%d Emits=TRUE\n')
WORDS = [list(w) for n in range(4) for w in itertools.product(range(2), repeat=n)]


def plays(rng):
    out = [{'op': 'replay', 'how': 'fn'}]
    for op in rng.sample(['count', 'freq', 'tracefreq'], rng.randint(1, 3)):
        out.append({'op': op, 'how': how(rng), 'term': rng.random() < 0.4})
    return out


def of(net):
    return {'n': net['n'], 'im': [[i, k] for i, k in enumerate(net['im']) if k],
            'trans': [{'label': CODE.get(t['label'], -1 - i), 'pre': [a['p'] - 1 for a in t['pre']], 'post': [a['p'] - 1 for a in t['post']]}
                      for i, t in enumerate(net['trans'])]}


def rnet(rng, nc):
    n = rng.randint(1, 5)
    tr = []
    for i in range(rng.randint(1, 6)):
        pre = [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 1, 2, 2]))]
        post = [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        lab = rng.randrange(nc) if rng.random() < 0.7 else -1 - i
        if lab < 0:
            post = post[:len(pre)]
        tr.append({'label': lab, 'pre': pre, 'post': post})
    net = {'n': n, 'trans': tr}
    if rng.random() < 0.95:
        net['im'] = [[p, rng.randint(1, 2)] for p in rng.sample(range(n), rng.randint(0, min(2, n)))]
    return net


def walk(rng, net, n):
    """a word the net can be expected to accept"""
    m = dict(net.get('im', []))
    w = []
    for _ in range(n):
        can = [t for t in net['trans'] if all(m.get(p, 0) >= t['pre'].count(p) for p in t['pre'])]
        if not can:
            break
        t = rng.choice(can)
        for p in t['pre']:
            m[p] -= 1
        for p in t['post']:
            m[p] = m.get(p, 0) + 1
        if t['label'] >= 0:
            w.append(t['label'])
    if w and rng.random() < 0.2:
        w[rng.randrange(len(w))] = rng.randrange(3)
    return w


def run(c):
    r = c.model('MCRsPlay', CFG % c.pick((2, 3, 2), (2, 5, 2)), timeout=800)
    rng = random.Random(c.seed + 1)
    nets = [of(x['net']) for x in r.cases]
    cases = []
    for i, net in enumerate(nets):
        log = rng.sample(WORDS, 5) if i % 3 else WORDS
        cases.append({'t': 'm%d' % i, 'log': log, 'names': rng.choice(NAMES)[:3], 'steps': [{'op': 'given', 'how': 'fn', 'net': net}] + plays(rng)})
    for i in range(c.pick(1500, 10000)):
        nc = rng.randint(1, 3)
        net = rnet(rng, nc)
        log = [walk(rng, net, rng.randint(0, 8)) for _ in range(rng.randint(0, 4))] + [[rng.randrange(nc) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 2))]
        cases.append({'t': 'g%d' % i, 'log': log, 'names': rng.choice(NAMES), 'steps': [{'op': 'given', 'how': 'fn', 'net': net}] + plays(rng)})
    for i, log in enumerate(logs(c, rng, 600, 4000)):
        s = steps(rng, False)
        if s[0]['op'] == 'heur' and rng.random() < 0.9:
            s.append({'op': 'ensure', 'how': how(rng)})
        cases.append({'t': 'd%d' % i, 'log': log, 'names': rng.choice(NAMES), 'steps': s + plays(rng)})
    rng.shuffle(cases)
    c.validate('TraceRsNets', rust.drive(c, 'rs_nets', cases, timeout=c.pick(120, 400)))
