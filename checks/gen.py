"""Seeded generation of larger inputs; the exhaustive small ones come from TLC."""
import random


def rlog(rng, nc, nt, nl, min_t=0, style=None):
    """A random log with structure typical for process logs (noise, loops, repeated variants)."""
    t = rng.randint(min_t, nt)
    style = style if style is not None else rng.randrange(4)
    base = [rng.randrange(nc) for _ in range(rng.randint(1, nl))]
    out = []
    for _ in range(t):
        if style == 0:
            tr = [rng.randrange(nc) for _ in range(rng.randint(0, nl))]
        elif style == 1:
            tr = list(base)
            for _ in range(rng.randint(0, 2)):
                if tr:
                    tr[rng.randrange(len(tr))] = rng.randrange(nc)
        elif style == 2:
            body = [rng.randrange(nc) for _ in range(rng.randint(1, 3))]
            tr = [rng.randrange(nc) for _ in range(rng.randint(0, 2))]
            tr += body * rng.randint(1, 4)
            tr += [rng.randrange(nc) for _ in range(rng.randint(0, 2))]
            tr = tr[:nl]
        else:
            tr = [c for c in base if rng.random() < 0.8]
        out.append(tr)
    return out


def rlogs(seed, n, nc, nt, nl, **kw):
    rng = random.Random(seed)
    return [rlog(rng, nc, nt, nl, **kw) for _ in range(n)]


def biglog(rng, nc, nt, nl):
    """many traces of few variants, some of them seen once or twice"""
    vs = [[rng.randrange(nc) for _ in range(rng.randint(0 if i else 1, nl))] for i in range(rng.randint(1, 4))]
    out = [list(vs[min(rng.randrange(len(vs)), rng.randrange(len(vs)))]) for _ in range(nt)]
    for _ in range(rng.randint(1, 4)):
        out[rng.randrange(nt)] = [rng.randrange(nc) for _ in range(rng.randint(0, nl))]
    return out


def cases_from(logs, prefix, schemes=4, extra=None):
    out = []
    for i, l in enumerate(logs):
        c = {'t': '%s%d' % (prefix, i), 'log': l, 'scheme': i % schemes, 'salt': i}
        if extra:
            c.update(extra(i, l))
        out.append(c)
    return out
