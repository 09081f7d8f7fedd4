import random

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\nINVARIANT RoundTrip\nINVARIANT Again\nINVARIANT OrderFree\n'
       'INVARIANT WellFormed\nINVARIANT Wins\nCONSTANTS NK=%d NT=%d NE=%d NA=%d\n')
STR = ['', ' ', 'a', 'True', 'False', '1', '1.0', 'None', '<a & "b">', "it's", '&amp;', 'line\nbreak', 'tab\there', 'cr\rlf\r\n', ' lead', 'trail ',
       'tä', '中文', '\U0001F600', '1970-01-01', ']]>', '{x}', 'a:b', '%s', '\\', '\u2028', '\xa0']
INT = ['0', '1', '-1', '2147483648', '-9223372036854775809', '123456789012345678901234567890']
FLT = ['0.0', '1.0', '-1.5', '0.1', '1e-300', '1e+22', '123456789.123456789', 'inf', '-inf', 'nan', '3.0000000000000004']
DAT = ['1970-01-01 00:00:00+00:00', '2021-03-28 02:30:00+02:00', '2020-02-29 23:59:59.999999-11:30', '2011-10-01 00:38:44.546000+02:00',
       '1999-12-31 12:00:00', '2024-01-02 03:04:05.000006', '2010-12-30 11:02:00+01:00', '1000-01-01 00:00:00', '9999-12-31 23:59:59']
KEYS = ['concept:name', 'time:timestamp', 'k', 'cost', 'org:resource', 'a b', 'ключ', 'key', 'value', 'x<y', 'id', 'scope']
HOW = ['plain', 'bare', 'dirs', 'rel', 'part', 'text', 'pretty']


def value(r, xes=True):
    k = r.choice('ssifbd' if not xes else 'ssifbdx')
    return [k, r.choice({'s': STR, 'i': INT, 'f': FLT, 'b': ['0', '1'], 'd': DAT, 'x': '0123456'}[k])]


def dic(r, n, x=True, keys=KEYS):
    return [[k, value(r, x)] for k in r.sample(keys, r.randint(0, n))]


def globs(r, x=True):
    return [[s, dic(r, 4, x)] for s in r.sample(['trace', 'event', 'log'], r.randint(0, 3))]


def exts(r):
    return [[n, [n.lower()[:4], 'http://x/%s?a=1&b=2' % n.lower()]] for n in r.sample(['Concept', 'Time', 'Org anisational', 'Äx'], r.randint(0, 3))]


def cls(r):
    return [[n, r.sample(['concept:name', 'lifecycle:transition', 'org:resource', "o'x"], r.randint(1, 3))]
            for n in r.sample(['Activity', 'Event Name', '(A+B)'], r.randint(0, 2))]


def attrs(r):
    return [[k, r.choice(STR)] for k in r.sample(['xes.version', 'xes.features', 'openxes.version', 'key', 'value'], r.randint(0, 3))]


def like(r, gl, scope):
    """values that look like the defaults: equal, equal in another type, or different"""
    g = dict(gl).get(scope, [])
    out = []
    for k, v in g:
        c = r.random()
        if c < 0.4:
            out.append([k, v])
        elif c < 0.6:
            out.append([k, r.choice([['i', '1'], ['b', '1'], ['f', '1.0'], ['s', '1'], ['i', '0'], ['b', '0'], ['f', '0.0'], ['s', 'True']])])
    return out


def merge(a, b):
    d = {k: v for k, v in a}
    d.update({k: v for k, v in b})
    return [[k, v] for k, v in d.items()]


def rlog(r, x=True):
    gl = globs(r, x)
    if r.random() < 0.4:
        gl = [[s, merge(g, [[k, r.choice([['i', '1'], ['b', '1'], ['f', '1.0'], ['s', '1'], ['b', '0']])] for k in r.sample(KEYS, 2)])] for s, g in gl]
    return {'attrs': attrs(r), 'exts': exts(r), 'cls': cls(r), 'props': dic(r, 4, x), 'globs': gl,
            'traces': [{'attrs': merge(dic(r, 3, x), like(r, gl, 'trace')),
                        'events': [merge(dic(r, 4, x), like(r, gl, 'event')) for _ in range(r.randint(0, 4))]} for _ in range(r.randint(0, 4))]}


def doc(r):
    l = rlog(r, False)
    its = [{'k': 'ext', 'name': n, 'v': v} for n, v in l['exts']] + [{'k': 'cls', 'name': n, 'v': v} for n, v in l['cls']]
    its += [{'k': 'val', 'name': n, 'v': v} for n, v in l['props']]
    for s, g in l['globs']:
        cut = r.randint(0, len(g))          # a scope may be given in several elements
        its.append({'k': 'glob', 'name': s, 'kids': g[:cut]})
        if cut < len(g):
            its.append({'k': 'glob', 'name': s, 'kids': g[cut:]})
    tr = [{'k': 'trace', 'attrs': t['attrs'], 'events': t['events']} for t in l['traces']]
    if r.random() < 0.3:
        r.shuffle(its)
    if r.random() < 0.3:
        its = tr + its
    else:
        its = its + tr
    return {'attrs': l['attrs'], 'items': its}


def run(c):
    r = c.model('MCXes', CFG % c.pick((2, 1, 1, 5), (2, 2, 2, 5)))
    rng = random.Random(c.seed)
    cases = []
    txt = {'i': '1', 'b': '1', 's': '1', 'x': '0'}
    names = {1: 'concept:name', 2: 'k'}
    dd = lambda d: [[names[k], [v[0], txt[v[0]]]] for k, v in d]
    ms = r.cases if len(r.cases) < c.pick(3000, 12000) else rng.sample(r.cases, c.pick(3000, 12000))
    for i, x in enumerate(ms):
        cases.append({'t': 'm%d' % i, 'log': {'props': dd(x['props']), 'globs': [[s, dd(g)] for s, g in x['globs']],
                                              'traces': [{'attrs': dd(t['attrs']), 'events': [dd(e) for e in t['events']]} for t in x['traces']]},
                      'ops': [{'op': 'save', 'how': HOW[i % 7]}]})
    for i in range(c.pick(700, 8000)):
        cases.append({'t': 'r%d' % i, 'log': rlog(rng), 'ops': [{'op': 'save', 'how': rng.choice(HOW)}, {'op': 'save', 'how': rng.choice(HOW)}]})
    for i in range(c.pick(700, 8000)):
        cases.append({'t': 'd%d' % i, 'ops': [{'op': 'doc', 'doc': doc(rng), 'style': rng.randint(0, 11)}, {'op': 'save', 'how': rng.choice(HOW)}]})
    h = c.drive('drv_xes', cases)
    # the same in an environment whose default encoding is ASCII
    asc = [{'t': 'e%d' % i, 'log': rlog(rng), 'ops': [{'op': 'save', 'how': rng.choice(['plain', 'bare', 'part'])}]} for i in range(c.pick(60, 400))]
    h += c.drive('drv_xes', asc, env={'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'})
    c.validate('TraceXes', h)
