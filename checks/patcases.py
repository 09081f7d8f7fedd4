"""Cases for loop and repeat discovery."""
import random, gen

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT FoundReal\nINVARIANT ScanExact\n'
       'INVARIANT StillRepeats\nINVARIANT ClosureMaximal\nINVARIANT Ordering\nCONSTANTS NC=%d NL=%d Bounds={%s}\n')


def group(traces, n):
    """several traces per log: traces are analysed independently of each other"""
    return [traces[i:i + n] for i in range(0, len(traces), n)]


def loopy(rng, nc, nl):
    tr = []
    while len(tr) < nl and rng.random() < 0.85:
        if rng.random() < 0.6:
            tr += [rng.randrange(nc) for _ in range(rng.randint(1, 4))] * rng.randint(2, 4)
        else:
            tr.append(rng.randrange(nc))
    return tr[:nl]


def logs(c, r, nc, nl):
    rng = random.Random(c.seed)
    out = group([x['tr'] for x in r.cases], 5)
    for _ in range(c.pick(250, 2000)):
        out.append([loopy(rng, rng.randint(1, nc), nl) for _ in range(rng.randint(0, 4))])
    return out


def maps(rng):
    return rng.choice([None, None, [0, 0, 1, 2, 3, 3, 4, 5], [1, 0, 2, 1, 3, 5, 5, 4], [0] * 8])
