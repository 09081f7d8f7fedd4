from common import *
from python.ficus.legacy.analysis.event_log_split import split_log_by_traces, merge_all_traces_in_one_log
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByVariants


def run(case):
    names = Names(case.get('scheme', 0))
    m = elog()
    log = m.MyEventLog(attributes={'name': 'L'})
    i = 0
    for n, tr in enumerate(case['log']):
        t = m.MyTrace(attributes={'concept:name': 'case%d' % n})
        for c in tr:
            i += 1
            t.append(m.MyEvent({CN: names.n(c), 'id': i, 'cost': i * 1.5}))
        log.append(t)
    objs = list(log)
    events = enc_log(log, names)

    def rest(l):
        return all(len(e) == 3 and e['cost'] == e['id'] * 1.5 for t in l for e in t)

    def attrs_ok():
        return [t.attributes for t in log] == [{'concept:name': 'case%d' % n} for n in range(len(case['log']))] \
            and log.attributes == {'name': 'L'}

    def index(t):
        for n, o in enumerate(objs):
            if o is t:
                return n + 1
        raise Malformed('not one of the given traces')

    def ident(t):
        """which given trace this is: by its own name"""
        return int(t.attributes['concept:name'][4:]) + 1 if 'concept:name' in t.attributes else index(t)

    def split():
        g = split_log_by_traces(log)
        return {'groups': [[ident(t) for t in gr] for gr in g], 'given': enc_log(log, names), 'rest': rest(log) and attrs_ok()}

    def filt():
        r = accessors.log(FilterTracesByVariants()(PipelinePartResult().with_log(log)))
        return {'kept': [ident(t) for t in r], 'log': enc_log(r, names), 'given': enc_log(log, names),
                'rest': rest(r) and rest(log) and attrs_ok()}

    def merge():
        r = merge_all_traces_in_one_log(log)
        seps = {}
        out = []
        ok = True
        for t in r:
            o = []
            for e in t:
                if e[CN] in names.codes:
                    o.append([names.c(e[CN]), as_int(e['id'])])
                    ok = ok and len(e) == 3 and e['cost'] == e['id'] * 1.5
                else:
                    o.append([-1, seps.setdefault(e[CN], len(seps))])
            out.append(o)
        for t in r:          # the merged log is a log of its own
            for e in t:
                e['scratch'] = 1
        return {'merged': out, 'given': enc_log(log, names), 'rest': ok and rest(log) and attrs_ok()}
    fns = {'split': split, 'filter': filt, 'merge': merge}
    ops = ['split', 'filter', 'merge', 'split']
    k = case['salt'] % 3
    return {'t': case['t'], 'log': case['log'], 'events': events,
            'steps': [{'op': o, 'obs': obs(fns[o])} for o in ops[k:] + ops[:k]]}


run_driver(run)
