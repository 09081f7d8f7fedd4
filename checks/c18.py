import json, random

CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Told\nINVARIANT KeysDiffer\nINVARIANT Typed\nCONSTRAINT Emit\nCONSTANTS NV=%d\n'
TREES = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Same\nPROPERTY Extends\nCONSTRAINT Emit\nCONSTANTS NT=%d NR=%d\n'
NEST = {'DiscoverActivitiesUntilNoMore2': False, 'ExecuteWithEachActivityLog2': True, 'ClusterizeLogTracesDbscan': True,
        'PrintEventlogInfoBeforeAfter': True}
CTX = [('string', ''), ('string', 'a/b.xes'), ('string', 'ж\n'), ('float', '0.0'), ('float', '0.3'), ('uint32', '0'), ('uint32', '4294967295'),
       ('bool', 'False'), ('bool', 'True'), ('strings', '[]'), ('strings', '["b", "", "b"]'), ('names_log', '[]'),
       ('names_log', '[["a", "b", "a"], [], ["ж"]]'), ('hashes_log', '[[0, 18446744073709551615], [], [7, 7]]'),
       ('event_log_info', '[3, 2, 1]'), ('event_log_info', '[0, 0, 0]'), ('pipeline', '["UseNamesEventLog", "FilterLogByVariants"]'), ('pipeline', '[]'),
       ('PatternsKindDto', 'MaximalRepeats'), ('FicusDistance', 'L1')]
KEYS = ['path', 'event_log_info', 'names_event_log', '', 'my key', 'pipeline', 'activity_level', 'ключ']


def run(c):
    r = c.model('MCRequests', CFG % c.pick(2, 3), label='settings')
    t = c.model('MCRequestTrees', TREES % c.pick((3, 2), (4, 2)), label='composition')
    rng = random.Random(c.seed)
    by = {}
    names = set()
    for x in r.cases:
        if x['k'] == 'use':
            by.setdefault(x['c'], []).append(x)
            names |= {v for a in x['a'] if a[2][0].isupper() for v in (a[2], a[1])}
            continue
        names |= {x['op']} | set(x['keys']) | {p['key'] for p in x['ps']}
    names.discard('')
    classes = sorted(by)
    cases = [{'t': 'names', 'ops': [{'op': 'names', 'names': sorted(names)}]}]
    # every class with its settings, several in one pipeline, requested twice
    items = []
    cap = c.pick(40, 600)
    for k in classes:
        xs = by[k] if len(by[k]) <= cap else rng.sample(by[k], cap)
        items += [{'c': k, 'a': x['a']} for x in xs]
    rng.shuffle(items)

    def ctx():
        ks = rng.sample(KEYS, rng.randint(0, 4))
        return [[k, *rng.choice(CTX)] for k in ks]

    def item(x, id, b=None):
        n = b is not None
        return {'c': x['c'], 'a': x['a'], 'id': id, 'n': n, 'b': b or []}

    def nested(x, id):
        return item(x, id, [] if NEST.get(x['c']) else None)
    for i in range(0, len(items), 6):
        tree = [nested(x, j + 1) for j, x in enumerate(items[i:i + 6])]
        cases.append({'t': 'k%d' % i, 'ops': [{'op': 'request', 'tree': tree, 'ctx': ctx()}, {'op': 'request', 'tree': tree, 'ctx': ctx()}]})
    ts = t.cases if len(t.cases) < 1500 else rng.sample(t.cases, c.pick(1500, 8000) if len(t.cases) > 8000 else 1500)

    def fill(it, memo):
        if it['c'] == 'junk':
            return it
        if it['id'] not in memo:
            memo[it['id']] = rng.choice(by[it['c']])['a']
        return dict(it, a=memo[it['id']], b=[fill(x, memo) for x in it['b']])
    for i, reqs in enumerate(ts):
        memo = {}
        cases.append({'t': 't%d' % i, 'ops': [{'op': 'request', 'tree': [fill(it, memo) for it in q], 'ctx': ctx()} for q in reqs]})

    def deep(n, d, ids):
        res = []
        for _ in range(n):
            x = rng.choice(by[rng.choice(classes if d == 0 or rng.random() < .5 else sorted(NEST))])
            ids.append(len(ids) + 1)
            b = None
            me = ids[-1]
            if x['c'] in NEST and (NEST[x['c']] or rng.random() < .7):
                b = deep(rng.randint(0, 3), d - 1, ids) if d else []
            res.append(item(x, me, b))
        return res
    for i in range(c.pick(200, 2500)):
        ids = []
        tree = deep(rng.randint(1, 5), 3, ids)
        more = tree + deep(rng.randint(0, 2), 1, ids)
        ops = [{'op': 'request', 'tree': q, 'ctx': ctx()} for q in (tree, tree, more)]
        if rng.random() < .2:
            ops.append({'op': 'request', 'tree': more + [{'c': 'junk', 'a': [], 'id': 0, 'n': False, 'b': []}], 'ctx': ctx()})
        cases.append({'t': 'd%d' % i, 'ops': ops})
    c.validate('TraceRequests', c.drive('drv_requests', cases))
