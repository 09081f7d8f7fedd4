import random, re
import gen, rust

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nINVARIANT NoGhosts\nINVARIANT Consistent\n'
       'CONSTANTS NC=%d NT=%d NL=%d NO=%d\n')
NAMES = [['A', 'B', 'C', 'D', 'E', 'F'], ['a b', 'ä', 'a', 'ab', '<x>', '"'], ['step_1', 'step_10', 'step', 'STEP_1', '1', 'x.y'],
         ['', ' ', '\t', 'FAKE', 'START', 'END'], ['中文', '中', 'A_COMPLETE', 'A_START', 'A.B', 'A']]
RES = ['A', '^a', 'step_1$', '[AB]', '.', '^$', 'x.y', 'b|C', '(?:A|a)_?', 'ä', '\\d', '^(?:step|A)']
CLS = ['[A-Za-z]+', 'step', 'A', '.', '[a-z]*', 'zzz', '中']
ART = {-3: 'ARTIFICIAL_START', -4: 'ARTIFICIAL_END'}


def key(r, names):
    """what the class extractor makes of each name: the part it matches at the beginning"""
    ids, out = {}, []
    for i, n in list(enumerate(names)) + list(ART.items()):
        m = re.search(r, n)
        out.append([i, ids.setdefault(m.group(0) if m and m.start() == 0 else n, len(ids))])
    return out


def steps(rng, log, names, n):
    """a random sequence of edits; only the lengths matter for what is possible"""
    nc = len(names)
    lens = [list(t) for t in log]
    out = []
    for _ in range(n):
        k = rng.choice(['look', 'clone', 'name', 'names', 'regex', 'rename', 'art', 'short', 'variants', 'push', 'insert', 'add', 'push', 'insert'])
        c = rng.randrange(nc)
        s = {'op': k}
        if k == 'name':
            s['c'] = c
            lens = [u for u in ([e for e in t if e != c] for t in lens) if u]
        elif k in ('names', 'regex'):
            if k == 'names':
                s['set'] = sorted(rng.sample(range(nc), rng.randint(0, 2)))
            else:
                s['re'] = rng.choice(RES)
                s['set'] = [i for i, x in list(enumerate(names)) + list(ART.items()) if re.search(s['re'], x)]
            lens = [u for u in ([e for e in t if e not in s['set']] for t in lens) if u]
        elif k == 'rename':
            s.update(set=sorted(rng.sample(range(nc), rng.randint(0, 2))), c=c)
            lens = [[c if e in s['set'] else e for e in t] for t in lens]
        elif k == 'art':
            s.update(rng.choice([{'s': True, 'e': True}, {'s': True, 'e': False}, {'s': False, 'e': True}]))
            lens = [([-3] if s['s'] else []) + t + ([-4] if s['e'] else []) for t in lens]
        elif k == 'short':
            s['n'] = rng.randint(0, 4)
            lens = [t for t in lens if len(t) >= s['n']]
        elif k == 'variants':
            lens = [t for i, t in enumerate(lens) if t not in lens[:i]]
        elif k in ('push', 'insert'):
            if not lens:
                continue
            a = rng.randrange(len(lens))
            s.update(at=a, c=c)
            lens[a] = lens[a] + [c] if k == 'push' else [c] + lens[a]
        elif k == 'add':
            s['tr'] = [rng.randrange(nc) for _ in range(rng.randint(0, 4))]
            lens.append(list(s['tr']))
        out.append(s)
    return out


def dress(rng, case, names, kinds=('simple', 'xes', 'pipe')):
    case.update(names=names, kind=rng.choice(kinds))
    n = len(names)
    for s in case['steps']:
        s['ign'] = sorted(rng.sample(range(n), rng.choice([0, 0, 0, 1, 2]))) if n > 2 else rng.choice([[], [], [0]])
        s['fake'] = rng.random() < 0.5
        if rng.random() < 0.3:
            s['cls'] = rng.choice(CLS)
            s['key'] = key(s['cls'], names)
    return case


def run(c):
    r = c.model('MCRsLogs', CFG % c.pick((2, 2, 2, 2), (2, 3, 2, 2)))
    rng = random.Random(c.seed)
    ms = r.cases if len(r.cases) <= c.pick(6000, 40000) else rng.sample(r.cases, c.pick(6000, 40000))
    cases = [dress(rng, {'t': 'm%d' % i, 'log': x['log'], 'opt': '', 'steps': [{'op': 'look'}] + x['steps']}, rng.choice(NAMES)[:2]) for i, x in enumerate(ms)]
    for i in range(c.pick(500, 4000)):
        log = gen.rlog(rng, rng.randint(1, 5), 6, 7)
        names = rng.choice(NAMES)
        cases.append(dress(rng, {'t': 'r%d' % i, 'log': log, 'opt': '', 'steps': [{'op': 'look'}] + steps(rng, log, names, rng.randint(1, 6))}, names))
    for i in range(c.pick(6, 60)):
        log = gen.biglog(rng, 4, rng.choice([40, 150, 300]), 4)
        names = rng.choice(NAMES)
        cases.append(dress(rng, {'t': 'b%d' % i, 'log': log, 'opt': '', 'steps': [{'op': 'look'}] + steps(rng, log, names, 2)}, names))
    c.validate('TraceRsLogs', rust.drive(c, 'rs_logs', cases))
