import random, struct, uuid
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
import rust

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%sINVARIANT TagByTag\nINVARIANT Early\nINVARIANT NestingIsOthers\nINVARIANT RoundTrip\n'
       'INVARIANT ReadLogsKeep\nCONSTANTS Part = "%s" NE = %d NV = %d\n')
KEYS = ['', 'concept:name', 'time:timestamp', 'org:resource', 'a & <b> "c"', 'ключ', 'lifecycle:transition', 'org:role']
S = ['A', 'b c', 'x<y>&"z\'', 'Ünï 中', '', '  padded ', 'complete', '&amp;', 'start']
I = [0, 5, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, -2 ** 63]
F = [('0.5', '5e-1'), ('-2.25',), ('1e300',), ('3', '3.0'), ('0.1',), ('123456789.125',)]
D = [(('2020-02-29T12:00:00+00:00', '2020-02-29T13:00:00+01:00', '2020-02-29T12:00:00Z', '2020-02-29T12:00:00.000-00:00'), '1582977600.000000000'),
     (('2020-02-29T12:00:00.123+00:00', '2020-02-29T06:30:00.123-05:30'), '1582977600.123000000'),
     (('1969-12-31T23:59:59.5Z',), '-1.500000000'), (('2262-01-01T00:00:00.123456789Z', '2262-01-01T02:00:00.123456789+02:00'), '9214646400.123456789'),
     (('0001-01-01T00:00:00Z',), '-62135596800.000000000')]
G = [str(uuid.UUID(int=77 ** k)) for k in (1, 5, 9)]
TAGS = {'s': 'string', 'i': 'int', 'f': 'float', 'b': 'boolean', 'd': 'date', 'g': 'id'}
TEXTS = {'s': [(x,) for x in S], 'i': [(str(x),) for x in I], 'f': F, 'b': [('false',), ('true',)], 'd': [x[0] for x in D],
         'g': [(x, x.upper(), x.replace('-', '')) for x in G]}
CANON = {'s': S, 'i': [str(x) for x in I], 'f': [str(struct.unpack('>Q', struct.pack('>d', float(x[0])))[0]) for x in F], 'b': ['false', 'true'],
         'd': [x[1] for x in D], 'g': G}
BAD = [('int', '1.5'), ('int', ''), ('date', 'yesterday'), ('date', '2020-02-30T00:00:00Z'), ('boolean', 'yes'), ('float', 'x'), ('id', '123'), ('duration', '5')]
EXTS = [('', '', ''), ('Concept', 'concept', 'http://www.xes-standard.org/concept.xesext'), ('Ü & co', 'u', 'http://x/?a=1&b="2"'), ('Time', 'time', 'urn:t')]
CLS = ['', 'Activity', 'a & b', 'MXML <Legacy>']


def ident(table, x):
    return table.index(x) if x in table else -1


def quoted(rng, s):
    q = rng.choice('""\'')
    s = escape(s, {'"': '&quot;'} if q == '"' else {"'": '&apos;'})
    if s and rng.random() < 0.1:
        i = rng.randrange(len(s))
        if s[i] not in '&;' and '&' not in s:
            s = s[:i] + rng.choice(['&#%d;', '&#x%x;']) % ord(s[i]) + s[i + 1:]
    return q + s + q


def attrs(rng, ps):
    if rng.random() < 0.2:
        ps = ps + [('note', rng.choice(S))]
    if rng.random() < 0.3:
        rng.shuffle(ps)
    return ''.join(rng.choice([' ', ' ', '  ', '\n\t']) + k + '=' + quoted(rng, v) for k, v in ps)


def shown(rng, e):
    """the name of the tag of an element and what stands in it"""
    k = e['k']
    if k == 'ext':
        ps = list(zip(('name', 'prefix', 'uri'), EXTS[e['id']]))
        if not e['full']:
            ps.pop(rng.randrange(3))
        return 'extension', ps
    if k == 'cls':
        ps = [('name', CLS[e['id']]), ('keys', ' '.join(KEYS[x] for x in e['keys']))]
        if not e['full']:
            ps.pop(rng.randrange(2))
        return 'classifier', ps
    if k == 'glob':
        return 'global', [('scope', e['scope'])]
    if k == 'val':
        ty, n = e['v']
        if ty == 'x':
            tag, v = rng.choice(BAD)
            return tag, [('key', KEYS[e['key']]), ('value', v)]
        return TAGS[ty], [('key', KEYS[e['key']]), ('value', rng.choice(TEXTS[ty][n]))]
    return k, []


def tags(rng, doc):
    """tags of the document with their texts, written in one of the ways XML has for them"""
    out = []

    def put(o, tag, x, s):
        out.append(({'o': o, 'tag': tag, 'x': x}, s))

    def one(e, inside):
        name, ps = shown(rng, e)
        if not inside and rng.random() < (0.8 if e['k'] in ('val', 'ext', 'cls') else 0.4):
            put('empty', e['k'], e, '<' + name + attrs(rng, ps) + rng.choice(['/>', ' />']))
            return
        put('open', e['k'], e, '<' + name + attrs(rng, ps) + '>')
        for x, y in inside:
            one(x, y)
        put('close', e['k'], e, '</' + name + '>')

    def val(x):
        return x, [val(y) for y in x['kids']]
    for e in doc:
        if e['k'] in ('ext', 'cls'):
            one(e, [])
        elif e['k'] == 'val':
            one(*val(e))
        elif e['k'] == 'glob':
            one(e, [val(x) for x in e['vals']])
        else:
            one(e, [val(x) for x in e['attrs']] + [({'k': 'event'}, [val(x) for x in v]) for v in e['events']])
    return out


def text(rng, ts, cut):
    gap = lambda: rng.choice(['', '\n', '\n  ', ' ', '<!-- <event> -->', '\n<!--x-->\n'])
    s = rng.choice(['', '<?xml version="1.0" encoding="UTF-8"?>\n']) + gap() + '<log xes.version="1.0" xmlns="http://www.xes-standard.org/">' + gap()
    for g, x in ts[:cut]:
        s += x + gap()
    if cut < len(ts):
        return s + (ts[cut][1][:rng.randrange(1, len(ts[cut][1]))] if rng.random() < 0.5 else '')
    return s + '</log>' + rng.choice(['', '\n'])


def plain(ts):
    return [g if g['tag'] not in ('trace', 'event') else {'o': g['o'], 'tag': g['tag'], 'x': 0} for g, _ in ts]


def read(rng, doc, cut=None):
    ts = tags(rng, doc)
    whole = cut is None
    cut = len(ts) if whole else rng.randrange(len(ts)) if ts else 0
    s = {'op': 'read', 'how': rng.choice(['fn', 'fn', 'part']), 'doc': doc, 'whole': whole, 'text': text(rng, ts, cut if not whole else len(ts)), 'tags': plain(ts[:cut])}
    if not ts and not whole:
        s['whole'] = True
    return s


# what the driver shows, in the terms of the specification
def v_in(v):
    return [v[0], ident(CANON.get(v[0], []), v[1])]


def d_in(d):
    return [[ident(KEYS, k), v_in(v)] for k, v in d]


def log_in(l):
    return {'exts': [ident(EXTS, tuple(x)) for x in l['exts']], 'cls': [[ident(CLS, n), [ident(KEYS, k) for k in ks]] for n, ks in l['cls']],
            'props': d_in(l['props']), 'globs': [[s, d_in(d)] for s, d in l['globs']],
            'traces': [[{'name': v_in(e['name']), 'time': v_in(e['time']), 'data': d_in(e['data'])} for e in t] for t in l['traces']]}


def elem(x):
    ty = [a for a, b in TAGS.items() if b == x.tag]
    v = x.get('value')
    n = -1
    if ty and v is not None:
        n = [i for i, ts in enumerate(TEXTS[ty[0]]) if v in ts] or ([i for i, c in enumerate(CANON['d']) if ty == ['d'] and c == instant(v)])
        if ty == ['f'] and not n:
            try:
                n = [i for i, f in enumerate(F) if float(f[0]) == float(v)]
            except ValueError:
                pass
        n = n[0] if n else -1
    return {'k': 'val', 'key': ident(KEYS, x.get('key')), 'v': [ty[0] if ty else 'x', n], 'kids': [elem(y) for y in x]}


def instant(v):
    import datetime, re
    m = re.fullmatch(r'(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d{1,9}))?(Z|[+-]\d\d:\d\d)', v)
    if not m:
        return None
    t = datetime.datetime.fromisoformat(m.group(1) + ('+00:00' if m.group(3) == 'Z' else m.group(3)))
    ns = int((m.group(2) or '').ljust(9, '0'))
    d = t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    return '%d.%09d' % (d.days * 86400 + d.seconds, ns)


def doc_in(s):
    try:
        r = ET.fromstring(s)
    except ET.ParseError:
        return None
    if r.tag != 'log':
        return None
    doc = []
    for x in r:
        if x.tag == 'extension':
            doc.append({'k': 'ext', 'full': True, 'id': ident(EXTS, (x.get('name'), x.get('prefix'), x.get('uri')))})
        elif x.tag == 'classifier':
            doc.append({'k': 'cls', 'full': True, 'id': ident(CLS, x.get('name')), 'keys': [ident(KEYS, k) for k in (x.get('keys') or '').split(' ')]})
        elif x.tag == 'global':
            doc.append({'k': 'glob', 'scope': x.get('scope') or '', 'vals': [elem(y) for y in x]})
        elif x.tag == 'trace':
            doc.append({'k': 'trace', 'attrs': [elem(y) for y in x if y.tag != 'event'], 'events': [[elem(z) for z in y] for y in x if y.tag == 'event']})
        else:
            doc.append(elem(x))
    return doc


def net_in(s, o):
    """the net of a PNML text, in the order in which places and transitions were made"""
    net = s['net']
    ps = net['places'] if s['names'] else o['ps']
    ts = [t['name'] for t in net['trans']] if s['names'] else o['ts']
    out = {'err': '', 'formed': False, 'places': [], 'trans': [], 'arcs': [], 'unique': True}
    try:
        r = ET.fromstring(o['text'])
    except ET.ParseError:
        return out
    n = r.find('net')
    out['formed'] = r.tag == 'pnml' and n is not None
    if not out['formed']:
        return out
    ids = []
    for x in n:
        ids.append(x.get('id'))
        if x.tag == 'place':
            out['places'].append(ident(ps, x.get('id')) + 1)
        elif x.tag == 'transition':
            nm = x.find('name/text')
            out['trans'].append([ident(ts, x.get('id')) + 1, '' if nm is None else nm.text or ''])
        elif x.tag == 'arc':
            a, b = x.get('source'), x.get('target')
            if a in ps:
                out['arcs'].append(['in', ident(ps, a) + 1, ident(ts, b) + 1])
            else:
                out['arcs'].append(['out', ident(ps, b) + 1, ident(ts, a) + 1])
    out['unique'] = len(ids) == len(set(ids)) and None not in ids
    return out


def taken(h):
    for s in h['steps']:
        o = s['obs']
        if o['err']:
            continue
        if s['op'] == 'net':
            s['obs'] = net_in(s, o)
            continue
        if 'log' in o:
            o['log'] = log_in(o['log'])
        if s['op'] == 'write':
            d = doc_in(o.pop('text'))
            o['formed'] = d is not None
            o['doc'] = d or []
        s.pop('text', None)
    return h


def rval(rng, bad=0.1, depth=1):
    key = rng.choice([1, 1, 2, 3, 4, 5, 6, 7])
    ty = 's' if key == 1 else 'd' if key == 2 else rng.choice('sifbdg')
    if rng.random() < 0.1:
        ty = rng.choice('sifbdg')
    v = ['x', 0] if rng.random() < bad else [ty, rng.randrange(len(CANON[ty]))]
    return {'k': 'val', 'key': key, 'v': v, 'kids': [rval(rng, bad, depth - 1) for _ in range(rng.choice([0, 0, 0, 0, 1, 2]) if depth > 0 else 0)]}


def revent(rng):
    e = [rval(rng) for _ in range(rng.randint(0, 5))]
    for key, ty in ((1, 's'), (2, 'd')):
        if rng.random() < 0.85:
            e.append({'k': 'val', 'key': key, 'v': [ty, rng.randrange(len(CANON[ty]))], 'kids': []})
    rng.shuffle(e)
    return e


def rdoc(rng):
    head = [{'k': 'glob', 'scope': s, 'vals': [rval(rng, depth=0 if rng.random() < 0.5 else 1) for _ in range(rng.randint(0, 4))]}
            for s in ('event', 'trace', 'log') if rng.random() < 0.4]
    rest = [{'k': 'ext', 'full': rng.random() < 0.8, 'id': rng.randint(1, 3)} for _ in range(rng.randint(0, 2))]
    rest += [{'k': 'cls', 'full': rng.random() < 0.8, 'id': rng.randint(1, 3), 'keys': [rng.choice([1, 2, 3, 5]) for _ in range(rng.randint(1, 3))]} for _ in range(rng.randint(0, 2))]
    rest += [rval(rng) for _ in range(rng.randint(0, 3))]
    ts = [{'k': 'trace', 'attrs': [rval(rng) for _ in range(rng.randint(0, 2))], 'events': [revent(rng) for _ in range(rng.randint(0, 4))]} for _ in range(rng.randint(0, 4))]
    for x in rest:
        head.insert(rng.randint(0, len(head)), x)
    out = head + ts
    if rng.random() < 0.3 and ts:
        out.insert(rng.randint(len(head), len(out)), {'k': 'ext', 'full': True, 'id': 1})
    return out


def size(doc):
    """events that a reader finds for sure (with name and time of their own), to change them"""
    out = []
    for e in (x for x in doc if x['k'] == 'trace'):
        n = sum(1 for v in e['events'] if any(x['key'] == 1 and x['v'][0] == 's' for x in v) and any(x['key'] == 2 and x['v'][0] == 'd' for x in v))
        out.append(n)
    return out


def sets(rng, doc):
    sz = size(doc)
    at = [(i + 1, n) for i, n in enumerate(sz) if n]
    out = []
    for _ in range(rng.randint(0, 3) if at else 0):
        i, n = rng.choice(at)
        key = rng.randint(1, 7)
        ty = 's' if key == 1 else 'd' if key == 2 else rng.choice('sifbdg')
        v = [ty, rng.randrange(len(CANON[ty]))]
        out.append({'op': 'set', 'i': i, 'j': rng.randint(1, n), 'key': key, 'name': KEYS[key], 'v': v, 'text': TEXTS[ty][v[1]][0], 'form': rng.randint(0, 3) if key > 2 else 0})
    return out


def rnet(rng):
    np, nt = rng.randint(0, 5), rng.randint(0, 5)
    pool = ['p%d' % i for i in range(6)] + ['a & b', '<x>', '"q"', 'Ü', 'x y', '{a,b}', '{}', 't0']
    names = rng.sample(pool, np + nt) if np + nt <= len(pool) else ['n%d' % i for i in range(np + nt)]
    sub = lambda: rng.sample(range(1, np + 1), rng.randint(0, np))
    return {'places': names[:np], 'trans': [{'name': names[np + i], 'data': rng.choice(['', 'A', 'x<y>&"z', 'Ünï 中', 'two words']), 'pre': sub(), 'post': sub()} for i in range(nt)]}


def run(c):
    rng = random.Random(c.seed)
    docs = []
    for part, ne, nv in c.pick((('events', 2, 1), ('order', 1, 1)), (('events', 2, 2), ('order', 2, 2))):
        r = c.model('MCRsXes', CFG % ('INVARIANT Emit\n', part, ne, nv), label=part)
        docs += rng.sample(r.cases, min(len(r.cases), c.pick(1500, 12000)))
    how = lambda: rng.choice(['fn', 'part'])
    cases = []
    for i, d in enumerate(docs):
        st = [read(rng, d), {'op': 'write', 'how': how()}, {'op': 'reread', 'how': how()}]
        if i % 3 == 0:
            st.append(read(rng, d, True))
        cases.append({'t': 'm%d' % i, 'steps': st})
    for i in range(c.pick(700, 8000)):
        d = rdoc(rng)
        st = [read(rng, d)] + sets(rng, d) + [{'op': 'write', 'how': how()}, {'op': 'reread', 'how': how()}]
        if rng.random() < 0.4:
            st += [{'op': 'write', 'how': how()}, {'op': 'reread', 'how': how()}]
        if rng.random() < 0.6:
            st += [read(rng, d, True) for _ in range(2)]
        cases.append({'t': 'r%d' % i, 'steps': st})
    cases.append({'t': 'none', 'steps': [{'op': 'nothing', 'how': 'fn'}]})
    cases.append({'t': 'none-part', 'steps': [{'op': 'nothing', 'how': 'part'}]})
    for i in range(c.pick(200, 2000)):
        n = rnet(rng)
        cases.append({'t': 'n%d' % i, 'steps': [{'op': 'net', 'how': how(), 'names': b, 'net': n} for b in (False, True)]})
    c.validate('TraceRsXes', [taken(h) for h in rust.drive(c, 'rs_xes', cases)])
