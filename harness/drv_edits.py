from common import *
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.mutations.mutations_parts import *
from python.ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByCount
from python.ficus.legacy.mutations import event_log_mutations as M

LT = 'lifecycle:transition'


def run(case):
    names = Names(case.get('scheme', 0))
    m = elog()
    log = m.MyEventLog(attributes={'name': 'L'})
    i = 0
    init = []
    for tr in case['log']:
        t = m.MyTrace(attributes={'concept:name': 'case%d' % len(init)})
        init.append([])
        for c in tr:
            i += 1
            p = {CN: names.n(c), 'id': i, 'cost': i * 1.5, 'nested': [i], 'org:resource': 'r%d' % (i % 2), '': 0}
            if i % 2:
                p[LT] = 'complete'
            t.append(m.MyEvent(p))
            init[-1].append([i, c, i % 2, 0])
        log.append(t)

    def enc(l):
        rest = [True]

        def ev(e):
            n = e[CN]
            c = {'ARTIFICIAL_START': -1, 'ARTIFICIAL_END': -2}.get(n)
            if c is None:
                c = names.c(n)
                j = as_int(e['id'])
                if not (e['cost'] == j * 1.5 and e['nested'] == [j] and e['org:resource'] == 'r%d' % (j % 2) and e[''] == 0):
                    rest[0] = False
                n_keys = 6
            else:
                j, n_keys = 0, 1
            life = 1 if LT in e else 0
            if life and e[LT] != 'complete':
                rest[0] = False
            note = as_int(e['note']) if 'note' in e else 0
            if len(e) != n_keys + life + (1 if note else 0):
                rest[0] = False
            return [j, c, life, note]
        return [[ev(e) for e in tr] for tr in l], rest[0]

    def ident(e):
        return e['id'] if 'id' in e else 0

    def code(e):
        return {'ARTIFICIAL_START': -1, 'ARTIFICIAL_END': -2}.get(e[CN]) or names.c(e[CN])

    def pred(p):
        k = p['k']
        if k == 'cls':
            return lambda e: e[CN] == names.n(p['v'])
        if k == 'idmod':
            return lambda e: ident(e) % p['m'] == p['v']
        if k == 'life':
            return lambda e: LT in e
        if k == 'note':
            return lambda e: 'note' in e
        return (lambda e: True) if k == 'all' else (lambda e: False)

    def mapped(mp, n):
        return n if n.startswith('ARTIFICIAL') else names.n(mp[names.c(n)])

    state = {'log': log}
    steps = []
    for s in case['ops']:
        op = s['op']
        fn = case['salt'] % 2 == 1

        def f():
            cur = state['log']
            attrs = [dict(tr.attributes) for tr in cur]

            def part(p):
                return accessors.log(p(PipelinePartResult().with_log(cur)))
            if op == 'remove':
                r = M.remove_event_from_log(cur, names.n(s['c'])) if fn else part(RemoveEventFromLogByName(names.n(s['c'])))
            elif op == 'removemany':
                ns = [names.n(c) for c in s['cs']]
                r = M.remove_events_from_log(cur, set(ns)) if fn else part(RemoveEventsFromLogByNames(ns))
            elif op == 'removepred':
                r = M.filter_log(cur, pred(s['p'])) if fn else part(RemoveEventsFromLogPredicate(pred(s['p'])))
            elif op == 'count':
                r = M.remove_empty_traces(cur, s['n']) if fn else part(FilterTracesByCount(s['n']))
            elif op == 'rename':
                r = part(PreprocessEventsNames(lambda n: mapped(s['map'], n)))
            elif op == 'extract':
                p = pred(s['p'])
                ex = lambda e: mapped(s['map'], e[CN])
                if s['p']['k'] == 'all':
                    r = part(ApplyClassExtractor(ex))
                else:
                    r = part(ApplyClassExtractor(ex, p))
            elif op == 'edit':
                p = pred(s['p'])

                def mut(e):
                    if p(e):
                        e['note'] = s['v']
                r = part(PreprocessEvents(mut))
            elif op == 'lifecycle':
                r = part(RemoveLifecycleTransitionsAttributes())
            else:
                r = part(AddArtificialStartEndEvents())
            given, g_rest = enc(cur)
            out, rest = enc(r)
            if op not in ('remove', 'removemany', 'removepred', 'count'):
                rest = rest and [dict(tr.attributes) for tr in r] == attrs
            else:
                rest = rest and [dict(tr.attributes) for tr in cur] == attrs
            if op == 'count':
                rest = rest and [dict(tr.attributes) for tr in r] == [a for a, tr in zip(attrs, cur) if len(tr) > s['n']]
            state['log'] = r
            return {'log': out, 'given': given, 'rest': rest and g_rest}
        o = obs(f)
        steps.append(dict(s, obs=o))
        if o['err']:
            break
    return {'t': case['t'], 'init': init, 'steps': steps}


run_driver(run)
