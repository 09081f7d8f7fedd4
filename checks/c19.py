import copy, random

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Good\nINVARIANT Complete\nINVARIANT Faithful\nINVARIANT Tiled\nINVARIANT Legended\n'
       'PROPERTY Grows\nCONSTRAINT Emit\nCONSTANTS NP=%d NT=%d NA=%d NN=%d NE=%d NB=%d NS=%d\n')
ODD = ['a', 'b', 'A.B.C', 'A complete', '<start>', 'say "x"', 'back\\slash', '\\N', 'uß', 'two\nlines', 'a:b:c', '->', '{x|y}', '<a', 'b>', 'ends\\', '"',
       'node', 'digraph', '12', '-1.5', '文字', ' lead', 'x\\n', '<>', '\\"', '[a=b]', 'a;b', "it's", '#', '//c', 'ж', 'label', 'x' * 60, '\\L', 'tab\t']
SHORT = [x for x in ODD if len(x) <= 50]
SVG = ['a', 'b', 'A.B.C', '<start>', 'say "x"', 'back\\slash', '\\N', 'uß', '->', '{x|y}', 'node', '12', '\\n', 'a:b']
IDS = [0, 1, -1, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1, -2 ** 63]


def run(c):
    r = c.model('MCDecoding', CFG % c.pick((2, 2, 2, 2, 2, 4, 3), (2, 2, 3, 2, 3, 5, 3)), timeout=600)
    rng = random.Random(c.seed)
    cases = []

    def texts(names=ODD):
        xs = names[:]
        rng.shuffle(xs)
        return [''] + xs

    def ids(n, unsigned=False):
        if rng.random() < .4:
            return list(range(1, n + 1))
        if unsigned:
            xs = [x for x in IDS if x >= 0] + [2 ** 64 - 1] + [rng.randrange(2 ** 64) for _ in range(n)]
            return rng.sample(list(dict.fromkeys(xs)), n)
        xs = IDS + [rng.randrange(-2 ** 63, 2 ** 63) for _ in range(n)]
        xs = list(dict.fromkeys(xs))
        rng.shuffle(xs)
        return xs[:n]

    def nids(m):
        return len(m['places']) + sum(1 + len(t['inc']) + len(t['out']) for t in m['trans'])

    def netop(m, ann):
        kind = rng.choice(['count', 'freq', 'trace', 'given']) if ann or rng.random() < .1 else 'none'
        n = len(ann)
        if kind in ('count', 'given'):
            vals = rng.sample([0, 1, 2, 10, 100, 2 ** 31, 2 ** 63 - 1, -1] + list(range(200, 200 + n)), n)
        else:
            vals = rng.sample([0.0, 1.0, 0.5, 0.1, 0.333333, 1e-7, 123456.789, 2.0] + [i / 7 + 3 for i in range(n)], n)
        return {'op': 'net', 'msg': m, 'show': rng.random() < .5, 'ann': ann, 'kind': kind, 'texts': texts(), 'ids': ids(nids(m)), 'vals': vals,
                'rankdir': rng.choice(['LR', 'TB'])}

    def graphop(m):
        return {'op': 'graph', 'kind': rng.choice(['graph', 'dfg']), 'msg': m, 'texts': texts(), 'ids': ids(len(m['nodes']), True), 'rankdir': 'LR'}

    def colors(n):
        s = set()
        while len(s) < n:
            s.add(tuple(rng.choice([0, 255, 1, 16, rng.randrange(256)]) for _ in range(3)))
        s = list(s)
        rng.shuffle(s)
        return [list(x) for x in s]

    def logop(log, scale, ncol, legend=None):
        legend = (rng.random() < .4) if legend is None else legend
        how = rng.choice(['plot', 'canvas', 'canvas'])
        if how == 'plot':
            scale = [x + x % 2 for x in scale]
        return {'op': 'colors', 'msg': log, 'how': how, 'part': rng.choice(['diversity', 'name', 'regex', 'full', 'short']), 'scale': list(scale),
                'legend': legend, 'title': rng.choice([None, 'a title']), 'cols': colors(ncol), 'texts': texts(SHORT) if legend else texts()}

    def retext(m, keys):
        """spread the two texts of the model over the table"""
        m = copy.deepcopy(m)
        for part, key in keys:
            for x in m[part]:
                if x[key]:
                    x[key] = rng.randint(1, 30)
                elif rng.random() < .3:
                    x[key] = rng.randint(0, 30)
        return m

    def reid(m, ann):
        """other order of identifiers"""
        n = nids(m)
        p = list(range(1, n + 1))
        rng.shuffle(p)
        m = copy.deepcopy(m)
        f = lambda i: p[i - 1]
        for x in m['places']:
            x['id'] = f(x['id'])
        for t in m['trans']:
            t['id'] = f(t['id'])
            for a in t['inc'] + t['out']:
                a['id'], a['place'] = f(a['id']), f(a['place'])
        for mk in (m['im'], m['fm']):
            for x in mk['ms']:
                x['place'] = f(x['place'])
        return m, [{'ent': f(a['ent']), 'val': a['val']} for a in ann]

    by = {}
    for x in r.cases:
        by.setdefault(x['k'], []).append(x)

    def some(xs, n):
        return xs if len(xs) <= n else rng.sample(xs, n)
    nets = by['net']
    rich = [x for x in nets if x['ann'] or x['net']['fm']['has']]
    ops = []
    for x in some(rich, c.pick(500, 8000)) + some([x for x in nets if not x['ann']], c.pick(300, 4000)):
        m, ann = reid(retext(x['net'], [('places', 'name'), ('trans', 'data')]), x['ann'])
        ops.append(netop(m, ann))
    for x in some(by['graph'], c.pick(307, 2400)):
        ops.append(graphop(retext(x['g'], [('nodes', 'data'), ('edges', 'data')])))
    for x in some(by['log'], c.pick(500, 6000)):
        ops.append(logop(x['log'], x['scale'], 3))
    # larger messages
    for i in range(c.pick(80, 1500)):
        nxt = [0]

        def fresh():
            nxt[0] += 1
            return nxt[0]
        places = [{'id': fresh(), 'name': rng.randint(0, 30)} for _ in range(rng.randint(0, 9))]
        pid = [p['id'] for p in places]

        def arcs():
            return [{'id': fresh(), 'place': rng.choice(pid), 'tok': rng.randint(1, 5)} for _ in range(rng.randint(0, 4))] if pid else []

        def mark():
            return {'has': True, 'ms': [{'place': p, 'tok': rng.randint(1, 3)} for p in rng.sample(pid, rng.randint(0, min(3, len(pid))))]} if rng.random() < .7 else {'has': False, 'ms': []}
        trans = [{'id': fresh(), 'data': rng.randint(0, 30), 'inc': arcs(), 'out': arcs()} for _ in range(rng.randint(0, 8))]
        m = {'places': places, 'trans': trans, 'im': mark(), 'fm': mark()}
        ent = rng.sample(range(1, nxt[0] + 1), rng.randint(0, nxt[0]))
        ann = [{'ent': e, 'val': k + 1} for k, e in enumerate(ent)] if rng.random() < .7 else []
        ops.append(netop(*reid(m, ann)))
    for i in range(c.pick(60, 800)):
        n = rng.randint(1, 9)
        m = {'nodes': [{'id': j + 1, 'data': rng.randint(0, 30)} for j in range(n)],
             'edges': [{'from': rng.randint(1, n), 'to': rng.randint(1, n), 'data': rng.randint(0, 30)} for _ in range(rng.randint(0, 16))]}
        ops.append(graphop(m))
    for i in range(c.pick(100, 1500)):
        log = []
        own = rng.random() < .6
        for _ in range(rng.randint(0, 6)):
            tr, at = [], 0
            for _ in range(rng.randint(0, 8)):
                n = rng.randint(1, 8)
                tr.append({'c': n if own else rng.randint(0, 8), 'start': at if rng.random() < .9 else rng.randint(0, 40), 'len': rng.randint(1, 7), 'name': n if n < 7 or own else 0})
                at += tr[-1]['len']
            log.append(tr)
        ops.append(logop(log, rng.choice([(2, 2), (4, 2), (2, 6), (1, 3), (5, 7), (20, 40)]), 9, None if own else False))
    # exported pictures
    for i in range(c.pick(24, 200)):
        x = rng.choice(rich)
        o = {'op': 'svg', 'show': True, 'texts': [''] + rng.sample(SVG, len(SVG))}
        k = len(SVG)
        if i % 2:
            m, _ = reid(x['net'], [])
            for y in m['places']:
                y['name'] = rng.randint(0, k)
            for y in m['trans']:
                y['data'] = rng.randint(0, k)
            o.update(kind='net', msg=m, ids=ids(nids(m)))
        else:
            m = copy.deepcopy(rng.choice(by['graph'])['g'])
            for y in m['nodes'] + m['edges']:
                y['data'] = rng.randint(0, k)
            o.update(kind='graph', msg=m, ids=ids(len(m['nodes']), True))
        ops.append(o)
    # data sets
    for i in range(c.pick(60, 600)):
        dim = rng.choice([1, 2, 3])
        n = rng.randint(dim, 12)
        rows = [[rng.randint(-5, 9) for _ in range(dim)] for _ in range(n)]
        labelled = rng.random() < .75
        ls = rng.sample([-1, 0, 1, 2, 7, 30], rng.randint(1, 4))
        labels = [rng.choice(ls) for _ in range(n)] if labelled else []
        cm = dict(zip(ls, rng.sample(range(6), len(ls))))
        t = texts()
        ops.append({'op': 'dataset', 'labelled': labelled, 'part': rng.choice(['kmeans', 'grid', 'dbscan', 'traces']), 'texts': t, 'cols': colors(6),
                    'msg': {'rows': rows, 'cols': rng.sample(range(len(t)), dim), 'names': [rng.randint(0, 12) for _ in range(n)], 'labels': labels,
                            'colors': [cm[x] for x in labels]}})
    for i in range(c.pick(60, 600)):
        ops.append({'op': 'names', 'texts': texts(), 'msg': [[rng.randint(0, 30) for _ in range(rng.randint(0, 6))] for _ in range(rng.randint(0, 5))]})
        ops.append({'op': 'info', 'msg': [rng.randint(0, 2 ** 31 - 1), rng.randint(0, 1000), rng.choice([0, 1, 2 ** 31 - 1])]})
    rng.shuffle(ops)
    for i in range(0, len(ops), 3):
        cases.append({'t': 'd%d' % i, 'ops': ops[i:i + 3]})
    c.validate('TraceDecoding', c.drive('drv_decode', cases, timeout=850))
