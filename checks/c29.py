import random
import gen, patcases, rust
import actcases as A
from c23 import CLS, NAMES, key
from c28 import KINDS

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT Sound\nINVARIANT Complete\nINVARIANT Lossless\n'
       'INVARIANT FilterKeeps\nINVARIANT FillFinds\nINVARIANT LogsCover\nCONSTANTS NC=%d NL=%d NS=%d\n')
NARROW = ['DontNarrow', 'NarrowDown', 'NarrowUp']
FILTER = ['NoFilter', 'DefaultFilter']
UNDEF = ['InsertAllEvents', 'InsertAllEvents', 'InsertAsSingleEvent', 'DontInsert']
STRAT = ['FromAllTraces', 'FromSingleMergedTrace']
LEVELS = [['A', '.*'], ['.', '[A-Za-z]+'], ['[A-Za-z]+'], ['zzz', 'step', '.'], ['.*', '.*']]


def tree(sets, rng=None):
    """a hierarchy over the class sets, larger ones first; a set may have several parents"""
    q = sorted({tuple(sorted(set(s))) for s in sets}, key=lambda s: (-len(s), s))
    kids = [[] for _ in q]
    roots = []
    for i, s in enumerate(q):
        up = [j for j, u in enumerate(q) if set(s) < set(u)]
        if not up:
            roots.append(i + 1)
            continue
        m = min(len(q[j]) for j in up)
        best = [j for j in up if len(q[j]) == m]
        for j in (best if rng is None else rng.sample(best, rng.randint(1, len(best)))):
            kids[j].append(i + 1)
    return q, kids, roots


def given(rng, sets, level=0):
    q, kids, roots = tree(sets, rng)
    names = ['N%d' % i for i in range(len(q))]
    rng.shuffle(names)
    rng.shuffle(roots)
    return {'op': 'given', 'roots': roots, 'nodes': [{'set': list(s), 'kids': k, 'level': level, 'name': n} for s, k, n in zip(q, kids, names)]}


def common(rng, **kw):
    return dict({'narrow': rng.choice(NARROW), 'min': rng.choice([0, 1, 2, 2, 3]), 'filter': rng.choice(FILTER), 'gap': rng.choice([0, 1, 1, 2, 3])}, **kw)


def find(rng, **kw):
    return dict({'op': 'find', 'kind': rng.choice(KINDS), 'strat': rng.choice(STRAT), 'bound': rng.choice([1, 2, 3, 20])}, **kw)


def acts(rng, **kw):
    return dict({'op': 'activities', 'level': rng.randint(0, 2)}, **kw)


def classy(rng, names):
    r = rng.choice(CLS)
    import re
    pre = [(m.group(0) if m and m.start() == 0 else n) for n in names for m in [re.search(r, n)]]
    return {'cls': r, 'key': key(r, names), 'pre': pre}


def around(rng):
    return rng.choice([[{'op': 'unattached'}], [{'op': 'count'}], [{'op': 'logs', 'source': 'TracesActivities', 'level': rng.randint(0, 2)}], []])


def pipeline(rng, names):
    kw = classy(rng, names) if rng.random() < 0.35 else {}
    key1 = {k: v for k, v in kw.items() if k != 'pre'}
    f = find(rng, **key1)
    a = acts(rng, **kw)
    out = [f, a]
    if rng.random() < 0.25:
        out += [dict(common(rng, op='fill'), **key1)] + around(rng)
    out += [common(rng, op='instances')] + around(rng) + around(rng)
    for _ in range(rng.randint(0, 2)):
        out += [dict(common(rng, op='fill'), **key1)] + around(rng)
    if rng.random() < 0.7:
        out += [{'op': 'abstract', 'undef': rng.choice(UNDEF)}] + rng.choice([[], [{'op': 'count'}], [{'op': 'logs', 'source': 'Log', 'level': 0}]])
        if rng.random() < 0.6:
            out += [{'op': 'forget'}, find(rng), acts(rng), common(rng, op='instances'), {'op': 'unattached'}, {'op': 'abstract', 'undef': rng.choice(UNDEF)},
                    {'op': 'logs', 'source': 'Log', 'level': 0}, {'op': 'count'}]
        out += [{'op': 'expand'}, {'op': 'count'}]
    out += rng.choice([[], [{'op': 'clear'}]])
    return out


def several(rng):
    return dict(common(rng, op='several'), levels=rng.choice(LEVELS), adj=rng.choice(['FromAllLog', 'FromUnattachedSubTraces']),
                kind=rng.choice(KINDS), strat=rng.choice(STRAT), bound=rng.choice([1, 2, 20]), level=rng.randint(0, 2))


def until(rng, names):
    kw = classy(rng, names) if rng.random() < 0.3 else {}
    return dict(common(rng, op='until'), **kw, only=rng.random() < 0.4, pipe=rng.random() < 0.7, kind=rng.choice(KINDS), strat=rng.choice(STRAT), bound=rng.choice([1, 2, 20]), level=rng.randint(0, 2),
                undef=rng.choice(UNDEF))


def alog(rng, nc):
    return [patcases.loopy(rng, rng.randint(1, nc), rng.randint(0, 12)) for _ in range(rng.randint(0, 4))]


def run(c):
    r = c.model('MCRsActs', CFG % c.pick((3, 4, 2), (3, 5, 3)))
    rng = random.Random(c.seed)
    cases = []
    ms = list(A.grouped(r))
    for i, (sets, narrow, log) in enumerate(ms if len(ms) < 3000 else rng.sample(ms, 3000)):
        names = rng.choice(NAMES)
        nd = 'DontNarrow' if not narrow else rng.choice(NARROW[1:])
        cut = rng.randint(0, len(sets))
        cases.append({'t': 'm%d' % i, 'names': names, 'log': log, 'steps': [
            given(rng, sets[cut:]), common(rng, op='instances', narrow=nd), {'op': 'unattached'}, {'op': 'logs', 'source': 'TracesActivities', 'level': 0},
            given(rng, sets[:cut], 1), common(rng, op='fill', narrow=nd), {'op': 'logs', 'source': 'TracesActivities', 'level': 1},
            {'op': 'abstract', 'undef': UNDEF[i % 4]}, {'op': 'logs', 'source': 'Log', 'level': 0}, {'op': 'expand'}, {'op': 'count'}]})
    for i in range(c.pick(250, 2500)):
        names = rng.choice(NAMES)
        nc = rng.randint(2, 5)
        sets = lambda: [rng.sample(range(nc), rng.randint(1, min(4, nc))) for _ in range(rng.randint(1, 7))]
        steps = [given(rng, sets()), common(rng, op='instances')] + around(rng)
        for lv in range(rng.randint(0, 2)):
            steps += [given(rng, sets(), lv), common(rng, op='fill')] + around(rng)
        steps += [{'op': 'abstract', 'undef': rng.choice(UNDEF)}, {'op': 'count'}, {'op': 'logs', 'source': 'Log', 'level': 0}, {'op': 'expand'}]
        cases.append({'t': 'g%d' % i, 'names': names, 'log': alog(rng, nc), 'steps': steps})
    for i in range(c.pick(450, 4000)):
        names = rng.choice(NAMES)
        steps = rng.choice([lambda: pipeline(rng, names), lambda: pipeline(rng, names), lambda: [several(rng), {'op': 'unattached'}],
                            lambda: [find(rng), acts(rng), common(rng, op='instances'), several(rng)], lambda: [until(rng, names)],
                            lambda: [until(rng, names), {'op': 'count'}, {'op': 'expand'}]])()
        cases.append({'t': 'r%d' % i, 'names': names, 'log': alog(rng, 5), 'steps': steps})
    c.validate('TraceRsActivities', rust.drive(c, 'rs_acts', cases))
