"""Programs of activity discovery for C12 to C15."""
import random, patcases

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT Sound\nINVARIANT Progress\nINVARIANT Complete\n'
       'INVARIANT NarrowOnlyAssigns\nINVARIANT Rest\nINVARIANT FillKeeps\nINVARIANT Lossless\nCONSTANTS NC=%d NL=%d NS=%d\n')
KINDS = ['maximal', 'super', 'near', 'tandem_max', 'tandem_prim']
FILTERS = [{'k': 'all'}, {'k': 'all'}, {'k': 'all'}, {'k': 'minlen', 'v': 2}, {'k': 'maxlen', 'v': 2}, {'k': 'even'}, {'k': 'size', 'v': 2},
           {'k': 'none'}]
MAPS = [None, None, [0, 0, 1, 2, 3, 3], [1, 1, 0, 3, 3, 2]]
# nested partitions: level k merges classes of level k-1; classes are named after their smallest member
NEST = [[[0, 1, 2, 3, 4, 5], [0, 0, 2, 2, 4, 4], [0, 0, 0, 0, 4, 4]], [[0, 0, 2, 3, 4, 5], [0, 0, 0, 3, 3, 5], [0] * 6],
        [[0, 1, 2, 3, 4, 5], [0, 1, 2, 2, 4, 4], [0, 0, 2, 2, 2, 2]]]


def grouped(r, per=24):
    """TLC's cases: one history per family, its traces together in a log"""
    by = {}
    for x in r.cases:
        by.setdefault(str((x['sets'], x['narrow'])), (x['sets'], x['narrow'], []))[2].append(x['tr'])
    for sets, narrow, trs in by.values():
        for i in range(0, len(trs), per):
            yield sets, narrow, trs[i:i + per]


class Gen:
    def __init__(self, rng, free=False):
        self.r = rng
        # inside gaps only filters that do not depend on the position are used
        self.filters = [f for f in FILTERS if f['k'] != 'even'] if free else FILTERS

    def given(self):
        """disjoint instances as a caller may put them into the context, not necessarily matching their activity"""
        out = []
        for _ in range(6):
            t, p = [], 0
            while p < 8 and self.r.random() < 0.6:
                p += self.r.choice([0, 0, 1, 2])
                l = self.r.randint(1, 3)
                t.append([self.r.randrange(8), p, l])
                p += l
            out.append(t)
        return {'op': 'given', 'inst': out}

    def log(self, nc=5, nt=4, nl=10):
        return [patcases.loopy(self.r, self.r.randint(1, nc), self.r.randint(1, nl)) for _ in range(self.r.randint(0, nt))]

    def rsets(self, nc=5, n=5):
        return [sorted(self.r.sample(range(nc), self.r.randint(1, min(4, nc)))) for _ in range(self.r.randint(1, n))]

    def sets(self, add=False, level=0, nc=5):
        return {'op': 'sets', 'sets': self.rsets(nc), 'level': level, 'add': add}

    def common(self):
        return {'narrow': self.r.random() < 0.6, 'filter': self.r.choice(self.filters)}

    def discover(self, op='discover', **kw):
        k = self.r.choice(KINDS)
        return dict({'op': op, 'kind': k, 'bound': self.r.choice([3, 4, 20]),
                     'merged': self.r.random() < 0.5 and not (op == 'high' and k.startswith('tandem')),
                     'level': self.r.randint(0, 2), 'map': self.r.choice(MAPS)}, **kw)

    def high(self):
        return dict(self.discover('high'), **self.common())

    def instances(self):
        return dict({'op': 'instances', 'fn': self.r.random() < 0.5, 'map': self.r.choice(MAPS)}, **self.common())

    def fill(self):
        return dict({'op': 'fill', 'min': self.r.choice([1, 1, 2, 3]), 'map': self.r.choice(MAPS)}, **self.common())

    def adjust(self, level):
        return dict({'op': 'adjust', 'min': self.r.choice([1, 1, 2, 3]), 'map': self.r.choice(MAPS), 'level': level,
                     'whole': self.r.random() < 0.5, 'merged': self.r.random() < 0.5}, **self.common())

    def levels(self, maps, level=0):
        return dict({'op': 'levels', 'maps': maps, 'min': self.r.choice([1, 1, 2]), 'level': level,
                     'whole': self.r.random() < 0.6, 'merged': self.r.random() < 0.5}, **self.common())

    def abstract(self, last=False):
        return {'op': 'abstract', 'strategy': self.r.choice(['all', 'all', 'single', 'none']) if last else 'all',
                'hashes': True if not last else self.r.random() < 0.6}

    def until(self):
        return dict({'op': 'until', 'merged': self.r.random() < 0.5, 'hashes': self.r.random() < 0.7, 'level': self.r.randint(0, 2),
                     'inc': self.r.random() < 0.5, 'map': self.r.choice([None, None, MAPS[2]])}, **self.common())


def strip(cases):
    for c in cases:
        for o in c['ops']:
            if o.get('map', 1) is None:
                del o['map']
    return cases
