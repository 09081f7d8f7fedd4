"""C21: class trees and graphs of forests of nodes."""
import copy, random

GCFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inside\nINVARIANT Confluent\nINVARIANT Bounded\nINVARIANT Split\nCONSTRAINT Emit\nCONSTANTS NN=%d NM=%d NL=%d\n'
TCFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Whole\nINVARIANT LeavesAreClasses\nCONSTRAINT Emit\nCONSTANTS NC=%d NX=%d\n'
TABLES = [['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l'],
          ['A', 'B', 'A::B', 'B::A', 'A::B::C', 'C', 'B::C', 'A:B', 'D', 'A::C', 'B::D', '::A'],
          ['node', 'edge', 'graph', 'digraph', 'subgraph', 'strict', '12', '-1.5', 'roots', 'Root', '1a', '.5'],
          ['pay now', 'say "x"', '->', 'a;b', '[a=b]', 'uß', '文字', '{x|y}', 'x:n', 'x:n:s', 'x', '#c'],
          ['A.Start.1', 'A.Start', 'A', 'B.Start.1', 'B', 'B.Start', 'a', 'b', '', ' ', ':', '::']]


def run(c):
    rng = random.Random(c.seed)
    cases = []
    dags = []
    for i, (nn, nm, nl) in enumerate(c.pick([(3, 3, 2)], [(3, 3, 2), (4, 2, 1)])):
        dags += c.model('MCGraphs', GCFG % (nn, nm, nl), 'forests %d' % i, timeout=600).cases
    trees = c.model('MCClassTrees', TCFG % c.pick((3, 2), (3, 3)), timeout=600).cases

    def names(n=12):
        xs = rng.choice(TABLES)[:]
        rng.shuffle(xs)
        return {'n%d' % (i + 1): xs[i] for i in range(n)}

    def permuted(f):
        """the same forest, nodes numbered and children and roots listed in another order; all nodes stay"""
        n = len(f['nodes'])
        p = list(range(1, n + 1))
        rng.shuffle(p)
        nodes = [None] * n
        for i, x in enumerate(f['nodes']):
            kids = [p[k - 1] for k in x['kids']]
            rng.shuffle(kids)
            nodes[p[i] - 1] = dict(x, kids=kids)
        tops = [p[k - 1] for k in f['tops']]
        rng.shuffle(tops)
        return {'nodes': nodes, 'tops': tops}

    def steps_of(f, other):
        root = rng.random() < .5
        out = [dict(f, op='graph', how=rng.choice(['class', 'class', 'creator']), root=root),
               dict(f, op='level', how='activity', level=rng.choice([0, 0, 1, 2]), root=root)]
        if rng.random() < .5:
            a, b = dict(f, g=0), dict(other, g=1)
            out.append({'op': 'text', 'root': root, 'forests': [a, dict(permuted(f), g=0), b, dict(permuted(f), g=0), dict(permuted(other), g=1)]})
        return out

    def shuffled(f):
        return permuted(f) if rng.random() < .8 else f
    rng.shuffle(dags)
    n = c.pick(2500, 60000)
    for i, f in enumerate(dags[:n]):
        cases.append({'t': 'g%d' % i, 'names': names(), 'steps': steps_of(shuffled(f), dags[rng.randrange(len(dags))])})
    # larger forests, several levels
    nocolon = {}

    def big():
        n = rng.randint(3, 14)
        nm = rng.randint(2, 12)
        nodes = []
        for i in range(n):
            l = rng.randint(0, 2)
            kids = [j + 1 for j in range(i) if nodes[j]['level'] == l and rng.random() < .3]
            nodes.append({'name': 'n%d' % rng.randint(1, nm), 'level': l, 'kids': kids})
        below = {k for x in nodes for k in x['kids']}
        return permuted({'nodes': nodes, 'tops': [j + 1 for j in range(n) if j + 1 not in below or rng.random() < .2]})
    for i in range(c.pick(300, 5000)):
        f = big()
        cases.append({'t': 'b%d' % i, 'names': names(), 'steps': steps_of(f, big())})
    # drawn graphs
    for i in range(c.pick(40, 400)):
        f = big()
        root = rng.random() < .5
        tab = rng.choice([TABLES[0], TABLES[1]])
        nm = {'n%d' % (j + 1): x for j, x in enumerate(tab)}
        cases.append({'t': 'd%d' % i, 'names': nm, 'steps': [
            dict(f, op='levels', root=root), dict(f, op='graph', how=rng.choice(['draw-activity', 'draw-class', 'draw-part']), root=root)]})
    # class trees: logs with these classes
    for i, x in enumerate(trees):
        cs = list(x['classes'])
        cases.append({'t': 't%d' % i, 'names': names(), 'steps': [tree_step(rng, cs, x['exts'])]})
    for i in range(c.pick(200, 3000)):
        cs = ['n%d' % (j + 1) for j in range(rng.randint(0, 12))]
        exts = []
        for _ in range(rng.randint(0, 5)):
            m = rng.randint(1, 12)
            exts.append({'n%d' % (j + 1): 'n%d' % rng.randint(1, m) for j in range(12)})
        cases.append({'t': 'T%d' % i, 'names': names(), 'steps': [tree_step(rng, cs, exts)]})
    # forests that are discovered
    for i in range(c.pick(60, 1000)):
        alpha = ['A.1', 'A.2', 'B.1', 'B.2', 'C.1', 'D'][:rng.randint(2, 6)]
        blocks = [[rng.choice(alpha) for _ in range(rng.randint(1, 4))] for _ in range(3)]
        log = []
        for _ in range(rng.randint(0, 3)):
            tr = []
            for _ in range(rng.randint(0, 6)):
                tr += rng.choice(blocks) * rng.randint(1, 2)
            log.append(tr)
        cases.append({'t': 'f%d' % i, 'names': {}, 'steps': [{'op': 'found', 'log': log, 'root': rng.random() < .5}]})
    c.validate('TraceGraphs', c.drive('drv_graphs', cases, timeout=800), timeout=800)


def tree_step(rng, cs, exts):
    """a log with exactly these classes"""
    ev = cs + [rng.choice(cs) for _ in range(rng.randint(0, 4))] if cs else []
    rng.shuffle(ev)
    log = [[] for _ in range(rng.randint(1 if ev else 0, 4))]
    for e in ev:
        log[rng.randrange(len(log))].append(e)
    return {'op': 'tree', 'log': log, 'classes': cs, 'exts': exts}
