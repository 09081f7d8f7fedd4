import random, re
import gen, patcases, rust
from c23 import CLS, NAMES
from c29 import acts, alog, common, find, given, UNDEF

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Metric\nINVARIANT Dbscan\nINVARIANT SameTogether\nINVARIANT MergeKeeps\n'
       '%sCONSTANTS Part = "%s" NC = %d NT = %d NL = %d\n')
DIST = ['L1', 'L2', 'Cosine']
SRC = ['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents']
TSRC = ['Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents']
BAD = {'cls': '[', 'bad': True}


def shown(rng, names):
    """a class extractor and what it makes of every name; the list of names grows by what it makes"""
    r = rng.choice(CLS)
    out = []
    for n in list(names):
        m = re.search(r, n)
        x = m.group(0) if m and m.start() == 0 else n
        if x not in names:
            names.append(x)
        out.append(names.index(x))
    return {'cls': r, 'shown': out}


def params(rng, dist):
    tol = {'Cosine': lambda: rng.choice([1, 5, 9, 21, 35, 49]), 'Levenshtein': lambda: rng.choice([1, 3, 3, 5, 7, 9])}.get(dist, lambda: rng.choice([1, 7, 13, 13, 25, 25, 31, 37, 61]))()
    if rng.random() < 0.04:
        tol = rng.choice([0, -1, -13])
    return {'dist': dist, 'tol': tol, 'mp': rng.choice([2, 2, 2, 3, 3, 4, 1, 0] if rng.random() < 0.3 else [2, 2, 3]), 'k': rng.choice([1, 2, 2, 3, 4, 0]), 'n': rng.choice([5, 50])}


def traces(rng, names=None):
    s = dict(params(rng, rng.choice(DIST + ['Levenshtein', 'Levenshtein'])), op='traces', how=rng.choice(['fn', 'fn', 'part']), tsrc=rng.choice(TSRC))
    if rng.random() < 0.02:
        s.update(BAD)
    elif names is not None and rng.random() < 0.3:
        s.update(shown(rng, names))
    return s


def cluster(rng, level, names=None, op=None):
    s = dict(params(rng, rng.choice(DIST if rng.random() < 0.97 else ['Levenshtein'])), op=op or rng.choice(['dataset', 'dbscan', 'dbscan', 'dbscan', 'kmeans', 'grid']), level=level, src=rng.choice(SRC))
    if s['op'] in ('kmeans', 'grid'):
        s['tol'] = abs(s['tol']) or 1
    if rng.random() < 0.02:
        s.update(BAD)
    elif names is not None and rng.random() < 0.3:
        s.update(shown(rng, names))
    return s


def near(rng, nc):
    """a log of a few shapes and small changes of them"""
    shapes = [patcases.loopy(rng, nc, rng.randint(0, 7)) for _ in range(rng.randint(1, 3))]
    out = []
    for _ in range(rng.randint(2, 9)):
        t = list(rng.choice(shapes))
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = rng.randint(0, len(t))
            t[i:i + rng.randint(0, 1)] = [rng.randrange(nc)] if rng.random() < 0.5 else []
        out.append(t)
    return out


def rows(rng, names):
    nested = rng.random() < 0.4
    out = []
    if nested:
        for lv in range(rng.randint(1, 2)):
            out += [{'op': 'forget'}] * (lv > 0) + [find(rng), acts(rng), common(rng, op='instances'), {'op': 'abstract', 'undef': rng.choice(UNDEF)}]
    for _ in range(rng.randint(1, 3)):
        out.append(traces(rng, None if nested else names))
    return out


def grouped(rng, names):
    """activities, then what looks alike"""
    out = [find(rng), acts(rng, level=0), common(rng, op='instances', narrow=rng.choice(['DontNarrow', 'NarrowDown', 'NarrowDown']), filter='NoFilter')]
    lv = 0
    if rng.random() < 0.3:
        lv = rng.randint(0, 1)
        out += [find(rng), acts(rng, level=1), common(rng, op='fill', filter='NoFilter')]
    for _ in range(rng.randint(0, 2)):
        out.append(cluster(rng, lv, names, 'dataset'))
    out.append(cluster(rng, lv if rng.random() < 0.9 else 5, names))
    if rng.random() < 0.3:
        out.append(traces(rng, names))
    if rng.random() < 0.4:
        # once more on what came out
        out += [{'op': 'abstract', 'undef': rng.choice(UNDEF)}, {'op': 'forget'}, find(rng), acts(rng, level=lv), common(rng, op='instances', filter='NoFilter'),
                cluster(rng, lv, None, 'dataset'), cluster(rng, lv), traces(rng)]
    return out


def bare(rng, nc):
    """activities without an occurrence, and clustering without instances"""
    sets = [rng.sample(range(nc), rng.randint(1, min(3, nc))) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.3:
        return [cluster(rng, 0)]
    return [given(rng, sets), common(rng, op='instances', filter='NoFilter'), cluster(rng, 0, None, 'dataset'), cluster(rng, 0)]


def run(c):
    r = c.model('MCRsClusters', CFG % (('CONSTRAINT Emit\n', 'rows') + c.pick((2, 3, 2), (2, 3, 3))), timeout=800)
    c.model('MCRsClusters', CFG % (('', 'merge') + c.pick((3, 3, 4), (3, 3, 6))), label='merge')
    rng = random.Random(c.seed)
    cases = []
    ms = list(r.cases)
    n = c.pick(1500, 8000)
    for i, m in enumerate(ms if len(ms) < n else rng.sample(ms, n)):
        cases.append({'t': 'm%d' % i, 'names': list(rng.choice(NAMES)), 'log': m['log'],
                      'steps': [dict(m['q'], op='traces', how=rng.choice(['fn', 'part']), tsrc='Events')]})
    for i in range(c.pick(500, 4000)):
        names = list(rng.choice(NAMES))
        cases.append({'t': 't%d' % i, 'names': names, 'log': near(rng, rng.randint(1, 5)), 'steps': rows(rng, names)})
    for i in range(c.pick(700, 6000)):
        names = list(rng.choice(NAMES))
        log = near(rng, 5) if rng.random() < 0.4 else alog(rng, 5) + [patcases.loopy(rng, 5, rng.randint(4, 14))]
        cases.append({'t': 'a%d' % i, 'names': names, 'log': log, 'steps': grouped(rng, names)})
    for i in range(c.pick(60, 500)):
        names = list(rng.choice(NAMES))
        nc = rng.randint(2, 4)
        cases.append({'t': 'g%d' % i, 'names': names, 'log': alog(rng, nc) + [[0, 1]], 'steps': bare(rng, nc)})
    c.validate('TraceRsClusters', rust.drive(c, 'rs_acts', cases))
