import random

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Well\nINVARIANT Rows\nINVARIANT Adjacent\nINVARIANT Exact\nINVARIANT Short\nINVARIANT Legends\n'
       'CONSTRAINT Emit\nCONSTANTS NTr=%d NEv=%d NCl=2 NAct=2\n')
PAL = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT OneColour\nINVARIANT NotBlack\nINVARIANT Injective\nPROPERTY Keeps\nCONSTRAINT Emit\nCONSTANTS NSteps=%d NColours=4\n'
CN = ['A', 'B.Start', 'pay, now', 'UndefinedActivity2', 'ж', 'x' * 70, '<b>', 'C', 'D', 'E', 'a b', 'q']
AN = ['A::B', 'act', 'Unattached', '{}', 'A::B.Start', 'B::A', 'long ' * 20, 'z', 'y', 'w', 'v', 'u']


def run(c):
    r = c.model('MCDiagrams', CFG % c.pick((2, 4), (3, 4)), label='tiles')
    q = c.model('MCPalettes', PAL % c.pick(4, 5), label='palettes')
    rng = random.Random(c.seed)

    def names():
        cs, an = rng.sample(CN, len(CN)), rng.sample(AN, len(AN))
        return {**{'c%d' % (i + 1): n for i, n in enumerate(cs)}, **{'a%d' % (i + 1): n for i, n in enumerate(an)}}

    def pat(log, marks):
        return [[dict(m, n='p:' + ','.join(log[i][m['s']:m['s'] + m['l']])) for m in row] for i, row in enumerate(marks)]

    def draw(k, log, marks, **kw):
        d = {'k': k, 'log': log, 'marks': pat(log, marks) if k == 'patterns' else marks, 'sel': [], 'who': 'a1', 'diff': False, 'short': False,
             'ws': rng.choice([1, 1, 2, 3]), 'hs': rng.choice([1, 1, 2, 5]), 'legend': rng.random() < .6}
        if k == 'placement':
            d['sel'] = rng.sample(['c1', 'c2', 'c3'], rng.randint(0, 3))
        if k in ('activities', 'patterns'):
            d['short'] = rng.random() < .5
        if k == 'single':
            d['who'], d['diff'] = rng.choice(['a1', 'a2']), rng.random() < .5
        d.update(kw)
        return d
    KINDS = ['classes', 'placement', 'activities', 'patterns', 'single']
    cases = []
    ts = r.cases if len(r.cases) <= c.pick(1200, 9000) else rng.sample(r.cases, c.pick(1200, 9000))
    for i, x in enumerate(ts):
        ks = rng.sample(KINDS, 3)
        cases.append({'t': 's%d' % i, 'names': names(), 'times': 1, 'tree': [draw(k, x['log'], x['marks']) for k in ks]})
    # every sequence of diagrams and nested pipelines
    progs = sorted({tuple(x['prog']) for x in q.cases if x['prog']})
    if len(progs) > c.pick(600, 4700):
        progs = rng.sample(progs, c.pick(600, 4700))

    def one(d):
        n = rng.randint(1, 2)
        log, marks = [], []
        for _ in range(n):
            tr = [rng.choice({'all': ['c1', 'c2'], 'some': ['c2'], 'acts': ['c2', 'c3']}[d]) for _ in range(rng.randint(1, 4))]
            log.append(tr)
            marks.append([{'s': rng.randint(0, len(tr) - 1), 'l': 1, 'n': rng.choice(['c2', 'a1'])}])
        return draw('activities' if d == 'acts' else rng.choice(['classes', 'placement', 'single']), log, marks, **({'sel': ['c2']} if d == 'some' else {}))
    for i, p in enumerate(progs):
        root = {'b': []}
        st = [root]
        for x in p:
            if x in ('copy', 'same'):
                n = {'k': rng.choice(['copy', 'par']) if x == 'copy' else rng.choice(['if', 'info', 'temp']), 'b': []}
                st[-1]['b'].append(n)
                st.append(n)
            elif x == 'leave':
                st.pop()
            else:
                st[-1]['b'].append(one(x))
        cases.append({'t': 'p%d' % i, 'names': names(), 'times': rng.choice([1, 1, 1, 2]), 'tree': root['b']})
    # larger logs, deeper nesting

    def big(nc):
        log, marks = [], []
        for _ in range(rng.randint(0, 6)):
            tr = ['c%d' % rng.randint(1, nc) for _ in range(rng.randint(0, 10))]
            row, at = [], 0
            while at < len(tr):
                if rng.random() < .5:
                    l = rng.randint(1, min(4, len(tr) - at))
                    row.append({'s': at, 'l': l, 'n': 'a%d' % rng.randint(1, nc)})
                    at += l
                else:
                    at += 1
            log.append(tr)
            marks.append(row)
        return log, marks

    def tree(n, d, nc):
        b = []
        for _ in range(n):
            if d and rng.random() < .35:
                b.append({'k': rng.choice(['copy', 'par', 'if', 'info', 'temp']), 'b': tree(rng.randint(1, 3), d - 1, nc)})
            else:
                k = rng.choice(KINDS)
                log, marks = big(nc)
                b.append(draw(k, log, marks))
                if k == 'placement':
                    b[-1]['sel'] = ['c%d' % j for j in range(1, nc + 1) if rng.random() < .5]
        return b
    for i in range(c.pick(120, 2000)):
        nc = rng.choice([2, 4, 9])
        cases.append({'t': 'b%d' % i, 'names': names(), 'times': rng.choice([1, 1, 2]), 'tree': tree(rng.randint(1, 5), 2, nc)})
    c.validate('TraceDiagrams', c.drive('drv_diagrams', cases, timeout=850))
