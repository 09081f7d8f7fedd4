from common import *
import copy, shutil, tempfile
from datetime import datetime, timezone, timedelta
from xml.sax.saxutils import quoteattr
from python.ficus.legacy.log.functions import (read_log_from_xes, save_event_log_to_xes, serialize_log_to_xes,
                                               serialize_log_to_xes_beautiful)
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import ReadLogFromXes, UseExistingLog
from python.ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
from python.ficus.legacy.pipelines.contexts import accessors

X = [lambda: None, lambda: [1], lambda: {'a': 1}, lambda: (1, 2), lambda: 1j, lambda: b'x', lambda: {1}]


def val(v):
    k, t = v
    if k == 's':
        return t
    if k == 'i':
        return int(t)
    if k == 'f':
        return float(t)
    if k == 'b':
        return t == '1'
    if k == 'd':
        return datetime.fromisoformat(t)
    return X[int(t) % len(X)]()


def a(s):
    """texts are compared as ASCII"""
    return json.dumps(s)[1:-1]


def enc(v):
    if type(v) is str:
        return ['s', a(v)]
    if type(v) is bool:
        return ['b', '1' if v else '0']
    if type(v) is int:
        return ['i', str(v)]
    if type(v) is float:
        return ['f', repr(v)]
    if isinstance(v, datetime):
        return ['d', (v.astimezone(timezone.utc) if v.tzinfo else v).isoformat()]
    return ['x', type(v).__name__]


def dic(d, f=enc):
    return sorted([a(k) if isinstance(k, str) else repr(k), f(v)] for k, v in d.items())


def enc_log(l):
    return {'attrs': dic(l.attributes), 'exts': dic(l.extensions, lambda v: [v['prefix'], v['uri']]),
            'cls': dic(l.classifiers, lambda v: [a(x) for x in v]), 'props': dic(l.properties),
            'globs': dic(l.global_values, dic),
            'traces': [{'attrs': dic(t.attributes), 'events': [dic(e.payload) for e in t]} for t in l]}


def mk(c):
    m = elog()
    d = lambda ps: {k: val(v) for k, v in ps}
    return m.MyEventLog([m.MyTrace([m.MyEvent(d(e)) for e in t['events']], d(t['attrs'])) for t in c['traces']],
                        attributes=dict(c.get('attrs', [])), extensions={n: {'prefix': p, 'uri': u} for n, (p, u) in c.get('exts', [])},
                        classifiers={n: list(ks) for n, ks in c.get('cls', [])}, properties=d(c['props']),
                        global_values={s: d(g) for s, g in c['globs']})


def text(doc, style):
    """writes a document independently of the code under test"""
    nl = '\n  ' if style % 2 else ''
    tag = {'s': 'string', 'i': 'int', 'f': 'float', 'b': 'boolean', 'd': 'date'}

    def q(s):
        return quoteattr(s, {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})

    def v(k, x):
        t = x[1]
        if x[0] == 'b':
            t = [['false', 'true'], ['False', 'True'], ['FALSE', 'TRUE'], ['0', '1']][style % 4][t == '1']
        if x[0] == 'd' and style % 3 == 1:
            t = t.replace(' ', 'T')
        return '%s<%s key=%s value=%s/>' % (nl, tag[x[0]], q(k), q(t))
    out = []
    for e in doc['items']:
        if e['k'] == 'ext':
            out.append('%s<extension name=%s prefix=%s uri=%s/>' % (nl, q(e['name']), q(e['v'][0]), q(e['v'][1])))
        elif e['k'] == 'cls':
            out.append('%s<classifier name=%s keys=%s/>' % (nl, q(e['name']), q(' '.join(e['v']))))
        elif e['k'] == 'val':
            out.append(v(e['name'], e['v']))
        elif e['k'] == 'glob':
            out.append('%s<global scope=%s>%s</global>' % (nl, q(e['name']), ''.join(v(*x) for x in e['kids'])))
        else:
            out.append('%s<trace>%s%s</trace>' % (nl, ''.join(v(*x) for x in e['attrs']), ''.join(
                '%s<event>%s</event>' % (nl, ''.join(v(*x) for x in ev)) for ev in e['events'])))
    head = '<?xml version="1.0" encoding="UTF-8" ?>\n' if style % 2 else ''
    ns = ' xmlns="http://www.xes-standard.org/"' if style % 3 else ''
    return '%s<log%s%s>%s%s</log>' % (head, ns, ''.join(' %s=%s' % (k, q(x)) for k, x in doc['attrs']), ''.join(out), nl)


def run(case):
    d = tempfile.mkdtemp(dir=os.getcwd())
    back = os.getcwd()
    try:
        os.chdir(d)
        cur = mk(case['log']) if 'log' in case else elog().MyEventLog()
        init = enc_log(cur)
        steps = []
        for i, s in enumerate(case['ops']):
            def f(cur=cur):
                same = True
                if s['op'] == 'save':
                    before = enc_log(cur)
                    how = s['how']
                    path = {'bare': 'log%d.xes' % i, 'dirs': os.path.join(d, 'x', 'y%d' % i, 'log.xes'),
                            'rel': os.path.join('r%d' % i, 'log.xes')}.get(how, os.path.join(d, 'log%d.xes' % i))
                    if how == 'part':
                        Pipeline(UseExistingLog(), SaveEventLogToXes(lambda c: path))(cur)
                    elif how in ('text', 'pretty'):
                        with open(path, 'w', encoding='utf-8') as fo:
                            fo.write(serialize_log_to_xes(cur) if how == 'text' else serialize_log_to_xes_beautiful(cur))
                    else:
                        save_event_log_to_xes(cur, path)
                    same = enc_log(cur) == before
                else:
                    path = 'doc%d.xes' % i
                    with open(path, 'w', encoding='utf-8') as fo:
                        fo.write(text(s['doc'], s['style']))
                new = accessors.log(Pipeline(ReadLogFromXes())(path)) if i % 2 else read_log_from_xes(path)
                e = enc_log(new)
                f.new = new
                return {'log': e, 'same': same, 'twice': enc_log(read_log_from_xes(path)) == e}
            o = obs(f)
            if s['op'] == 'doc':
                dd = s['doc']
                cv = lambda x: enc(val(x))
                p2 = lambda ps: [[a(k), cv(x)] for k, x in ps]
                its = []
                for e in dd['items']:
                    e = dict(e)
                    if e['k'] != 'trace':
                        e['name'] = a(e['name'])
                    if e['k'] == 'val':
                        e['v'] = cv(e['v'])
                    if e['k'] == 'cls':
                        e['v'] = [a(x) for x in e['v']]
                    if e['k'] == 'glob':
                        e['kids'] = p2(e['kids'])
                    if e['k'] == 'trace':
                        e['attrs'] = p2(e['attrs'])
                        e['events'] = [p2(x) for x in e['events']]
                    its.append(e)
                s = dict(s, doc={'attrs': [[a(k), ['s', a(x)]] for k, x in dd['attrs']], 'items': its})
            steps.append(dict(s, obs=o))
            if o['err']:
                break
            cur = f.new
        return {'t': case['t'], 'init': init, 'steps': steps}
    finally:
        os.chdir(back)
        shutil.rmtree(d, ignore_errors=True)


run_driver(run)
