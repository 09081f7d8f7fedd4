from common import *
import copy
from pm4py.objects.log.obj import EventLog, Event, Trace
from python.ficus.legacy.log.pm4py_converters import to_pm4py_log, from_pm4py_log
m = elog()


def ev(n):
    return m.MyEvent({CN: n})


def tr(n):
    return m.MyTrace([ev(n)], {'n': n})


def start():
    t1 = m.MyTrace([m.MyEvent({CN: 10, 'l': [1], 'x': 11}), ev(12)], {'n': 13, 'l': [2]})
    t2 = m.MyTrace([m.MyEvent({CN: 14, 'x': 15})])
    return m.MyEventLog([t1, t2], {'m': 16}, {'E': {'prefix': 18}}, {'C': [19]}, {'m': 17}, {'event': {'m': 20}})


def atom(n):
    return {'a': as_int(n), 'k': '', 'd': [], 's': []}


def val(v):
    if isinstance(v, dict):
        return {'a': 0, 'k': 'dc', 'd': [[k, val(x)] for k, x in v.items()], 's': []}
    if isinstance(v, list):
        return {'a': 0, 'k': 'ls', 'd': [], 's': [val(x) for x in v]}
    return atom(v)


LOGF = ['attributes', 'properties', 'extensions', 'classifiers', 'global_values']


def show(o):
    if isinstance(o, m.MyEvent):
        return {'a': 0, 'k': 'ev', 'd': [[k, val(v)] for k, v in o.payload_items()], 's': []}
    if isinstance(o, Event):
        return {'a': 0, 'k': 'ev', 'd': [[k, val(v)] for k, v in o.items()], 's': []}
    if isinstance(o, (m.MyTrace, Trace)):
        return {'a': 0, 'k': 'tr', 'd': [['attributes', val(dict(o.attributes))]], 's': [show(e) for e in o]}
    if isinstance(o, m.MyEventLog):
        return {'a': 0, 'k': 'lg', 'd': [[f, val(getattr(o, f))] for f in LOGF], 's': [show(t) for t in o]}
    if isinstance(o, EventLog):
        return {'a': 0, 'k': 'pm', 'd': [[f, val(getattr(o, 'omni_present' if f == 'global_values' else f))] for f in LOGF],
                's': [show(t) for t in o]}
    raise Malformed('%r' % (type(o),))


def run(case):
    hs = [start()]
    steps = []
    for j, (op, i) in enumerate(case['prog']):
        n = 100 + j
        o = hs[i - 1]

        def f():
            eq = True
            fresh = tr if isinstance(o, m.MyEventLog) else ev
            if op in ('copy', 'deepcopy'):
                hs.append(getattr(copy, op)(o))
                eq = hs[-1] == o and hash(hs[-1]) == hash(o) and type(hs[-1]) is type(o)
            elif op == 'topm':
                hs.append(to_pm4py_log(o))
            elif op == 'frompm':
                hs.append(from_pm4py_log(o))
            elif op == 'sub':
                if len(o):
                    hs.append(o[0])
            elif op == 'set':
                o['k'] = n
            elif op == 'del':
                if 'x' in o:
                    del o['x']
            elif op == 'list':
                if 'l' in o:
                    o['l'].append(n)
            elif op == 'append':
                o.append(fresh(n))
            elif op == 'insert':
                o.insert(ev(n), 0)
            elif op == 'pop':
                if len(o):
                    del o[0]
            elif op == 'replace':
                if len(o):
                    o[0] = fresh(n)
            elif op == 'attr':
                o.attributes['n'] = n
            elif op == 'alist':
                if 'l' in o.attributes:
                    o.attributes['l'].append(n)
            elif op == 'prop':
                o.properties['n'] = n
            elif op == 'ext':
                o.extensions['E']['prefix'] = n
            elif op == 'extnew':
                o.extensions['N'] = {'prefix': n}
            elif op == 'clsnew':
                o.classifiers['N'] = [n]
            elif op == 'globnew':
                o.global_values['trace'] = {'n': n}
            elif op == 'cls':
                o.classifiers['C'].append(n)
            elif op == 'glob':
                o.global_values['event']['n'] = n
            elif op == 'first':
                if len(o) and len(o[0]):
                    o[0][0]['k'] = n
            else:
                raise ValueError(op)
            mine = [i for i, x in enumerate(hs) if isinstance(x, (m.MyEvent, m.MyTrace, m.MyEventLog))]
            same = [[i + 1, j + 1] for i in mine for j in mine if type(hs[i]) is type(hs[j]) and hs[i] == hs[j]]
            return {'all': [show(x) for x in hs], 'eq': eq, 'same': same}
        x = obs(f)
        steps.append({'op': op, 'i': i, 'obs': x})
        if x['err']:
            break
    return {'t': case['t'], 'steps': steps}


run_driver(run)
