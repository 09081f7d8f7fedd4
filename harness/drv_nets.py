"""Inductive discovery on logs; the nets in the context are recorded as they are."""
import copy, datetime
from common import *
from python.ficus.legacy.pipelines.pipelines import *
from python.ficus.legacy.pipelines.contexts import accessors as A
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.discovery.discovery_parts import DiscoverPetriNetInductive
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog


class Feed(InternalPipelinePart):
    def __init__(self, out):
        self.out = out

    def execute(self, ctx):
        ctx.with_patterns([[SubArrayInEventLog(0, 1)]])
        ctx.with_serialized_graph('text')
        self.out.update(ctx.values)
        return ctx


def payloads(log):
    return [[dict(e.payload_items()) for e in tr] for tr in log], [dict(tr.attributes or {}) for tr in log]


def net_of(w, back):
    places = list(w.petri_net.places)
    at = {id(p): i + 1 for i, p in enumerate(places)}
    own = True

    def arcs(xs, side):
        out = []
        for a in xs:
            p = getattr(a, side)
            if id(p) not in at:
                raise Malformed('an arc leads outside the net')
            out.append({'p': at[id(p)], 'w': as_int(a.weight)})
        return out

    def marking(m):
        nonlocal own
        v = [0] * len(places)
        for p, n in m.items():
            if id(p) in at:
                v[at[id(p)] - 1] += as_int(n)
            else:
                own = False
        return v
    ts = [{'label': '' if t.label is None else back[t.label], 'pre': arcs(t.in_arcs, 'source'), 'post': arcs(t.out_arcs, 'target')}
          for t in w.petri_net.transitions]
    if len(w.petri_net.arcs) != sum(len(t['pre']) + len(t['post']) for t in ts):
        raise Malformed('arcs of the net and of its transitions differ')
    return {'n': len(places), 'trans': ts, 'im': marking(w.start_marking), 'fm': marking(w.end_marking)}, own


def step(s, names):
    m = elog()
    log = m.MyEventLog()
    i = 0
    for j, tr in enumerate(s['log']):
        t = m.MyTrace()
        t.attributes = {CN: 'case %d' % (j // 2)}
        for c in tr:
            i += 1
            extra = {'time:timestamp': datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=i % 7)} if s['times'] else None
            t.append(mk_event(names[c], i, extra))
        log.append(t)
    before = copy.deepcopy(payloads(log))
    back = {v: k for k, v in names.items()}

    def f():
        was = {}
        part = DiscoverPetriNetInductive() if s['default'] else DiscoverPetriNetInductive(noise_threshold=0)
        r = Pipeline(UseExistingLog(), Feed(was), part)(log)
        net, own = net_of(A.petri_net(r), back)
        pats = r.values['patterns']
        return {'net': net, 'own': own, 'log': payloads(log) == before and payloads(A.log(r)) == before,
                'entries': all(k in r.values and (r.values[k] is was[k] or k == 'log') for k in was) and len(r.values) == len(was) + 1
                and [[(p.first_pos, p.length) for p in x] for x in pats] == [[(0, 1)]]}
    return dict(s, obs=obs(f, 60))


def run(case):
    return {'t': case['t'], 'steps': [step(dict(s, op='discover'), case['names']) for s in case['steps']]}


run_driver(run)
