from common import *
import contextlib, io, re
from python.ficus.legacy.analysis.patterns import event_log_patterns as P
from python.ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy as U
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource as R
from python.ficus.legacy.pipelines.contexts.keys import *
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.pipelines import Pipeline, InternalPipelinePart
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind as K, AdjustingMode
from python.ficus.legacy.pipelines.analysis.high_level import *
from python.ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents

SRC = {'maximal': R.MaximalRepeats, 'super': R.SuperMaximalRepeats, 'near': R.NearSuperMaximalRepeats,
       'tandem_max': K.MaximalArray, 'tandem_prim': K.PrimitiveArray}
STR = {'all': U.InsertAllEvents, 'single': U.InsertAsSingleEvent, 'none': U.DontInsert}
UE = 'UnderlyingEvents'
UA = 'UnderlyingActivities'


class World:
    def __init__(self, case):
        self.names = Names(case.get('scheme', 0))
        self.dyn = {}
        self.dyn_names = []
        self.nodes = []          # registry: node objects in order of first sight
        self.index = {}          # id(node) -> 1-based index
        self.first = []          # encoding at first sight
        self.ctx = None
        self.keep = []

    # -- classes and events
    def code(self, name):
        if name in self.names.codes:
            return self.names.codes[name]
        if name == 'UndefinedActivity':
            return -3
        if not isinstance(name, str):
            raise Malformed('class name %r' % (name,))
        if name not in self.dyn:
            self.dyn[name] = 100 + len(self.dyn)
        return self.dyn[name]

    def event(self, e):
        u = [self.event(x) for x in e[UE]] if UE in e else []
        return [self.code(e[CN]), as_int(e['id']) if 'id' in e else 0, u]

    def log(self, l):
        return [[self.event(e) for e in t] for t in l]

    def intact(self, l):
        def ok(e):
            if UE in e:
                return all(ok(x) for x in e[UE])
            if 'id' not in e:
                return len(e) == 1
            return len(e) == 3 and e['cost'] == e['id'] * 1.5
        return all(ok(e) for t in l for e in t)

    # -- activities
    def node_enc(self, n):
        return {'set': sorted(self.code(x) for x in n.name.split('::')), 'level': as_int(n.activity_level),
                'kids': [self.node(k) for k in n.child_nodes], 'nc': self.code(n.name), 'uc': self.code(n.unique_name()),
                'name': n.name}

    def node(self, n):
        i = self.index.get(id(n))
        if i is None:
            self.keep.append(n)
            self.nodes.append(n)
            i = len(self.nodes)
            if i > 3000:
                raise Malformed('too many activities')
            self.index[id(n)] = i
            self.first.append(None)
            self.first[i - 1] = self.node_enc(n)
        return i

    def acts(self, roots):
        return [self.node(n) for n in roots]

    def inst(self, xs):
        return [[[self.node(i.node), as_int(i.start_pos), as_int(i.length)] for i in t] for t in xs]

    def state(self):
        v = self.ctx
        return {'log': self.log(accessors.log(v)),
                'stands': [[self.acts(e[UA]) if UA in e else [] for e in t] for t in accessors.log(v)],
                'acts': self.acts(accessors.activities(v)) if v.has_value(activities_key) else [],
                'inst': self.inst(accessors.traces_activities(v)) if v.has_value(traces_activities_key)
                else [[] for _ in accessors.log(v)]}

    def stable(self):
        return all(self.node_enc(n) == f for n, f in zip(list(self.nodes), list(self.first)))

    def finish(self):
        srt = {n: i for i, n in enumerate(sorted({f['name'] for f in self.first}))}
        return [{'set': f['set'], 'level': f['level'], 'kids': f['kids'], 'nc': f['nc'], 'uc': f['uc'], 'rank': srt[f['name']]}
                for f in self.first]


def run(case):
    w = World(case)
    names = w.names
    m = elog()
    log = m.MyEventLog()
    i = 0
    for tr in case['log']:
        t = m.MyTrace()
        for c in tr:
            i += 1
            t.append(m.MyEvent({CN: names.n(c), 'id': i, 'cost': i * 1.5}))
        log.append(t)
    w.ctx = PipelinePartResult().with_log(log)

    def extractor(mp):
        if mp is None:
            return None
        return lambda e: names.n(mp[names.c(e[CN])]) if e[CN] in names.codes and names.c(e[CN]) < len(mp) else e[CN]

    def flt(f):
        k, v = f['k'], f.get('v', 0)
        return {'all': lambda a: True, 'minlen': lambda a: a.length >= v, 'maxlen': lambda a: a.length <= v,
                'even': lambda a: a.start_pos % 2 == 0, 'size': lambda a: a.node.length >= v, 'none': lambda a: False}[k]

    def kw_of(s, *pairs):
        """keyword arguments: only those that differ from the documented default, so defaults are exercised too"""
        out = {}
        for kw, val in pairs:
            out[kw] = val
        return out

    def strategy(s):
        return (ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace if s['merged']
                else ActivitiesDiscoveryStrategy.DiscoverFromAllTraces)

    def op(s):
        k = s['op']
        ex = extractor(s.get('map'))
        exd = ex or (lambda e: e[CN])
        extra = {}
        if k in ('discover', 'high'):
            tandem = s['kind'].startswith('tandem')
            if k == 'discover':
                src = DiscoverTandemArrays(SRC[s['kind']], s['bound'], ex) if tandem else DiscoverRepeats(SRC[s['kind']], ex)
                kw = {'class_extractor': ex} if ex else {}
                w.ctx = DiscoverActivitiesFromPatterns(src, strategy(s), activity_level=s['level'], **kw)(w.ctx)
            else:
                kw = {'activity_level': s['level']}
                if ex:
                    kw['class_extractor'] = ex
                if s['filter']['k'] != 'all':
                    kw['activity_in_trace_filter'] = flt(s['filter'])
                if not s['narrow']:
                    kw['should_narrow_activity'] = False
                if tandem:
                    part = DiscoverActivitiesFromTandemArrays(SRC[s['kind']], s['bound'], **kw)
                else:
                    part = DiscoverActivitiesInstancesFromRepeats(SRC[s['kind']], activities_discovery_strategy=strategy(s), **kw)
                w.ctx = part(w.ctx)
        elif k == 'sets':
            # activities for given class sets, found in a log of their own
            src = m.MyEventLog([m.MyTrace([m.MyEvent({CN: names.n(c)}) for c in st]) for st in s['sets']])
            pats = [[P.SubArrayInEventLog(0, len(st))] for st in s['sets']]
            c2 = PipelinePartResult().with_log(src).with_repeat_sets(P.create_repeat_sets(src, pats))
            new = accessors.activities(DiscoverActivities(s['level'])(c2))
            old = accessors.activities(w.ctx) if s['add'] and w.ctx.has_value(activities_key) else []
            w.ctx = w.ctx.with_activities(list(old) + list(new))
        elif k == 'given':
            # instances as given by the caller: whole traces cut at the given places
            roots = accessors.activities(w.ctx)
            allr = []
            q = list(roots)
            while q:
                n = q.pop(0)
                allr.append(n)
                q.extend(n.child_nodes)
            now = accessors.log(w.ctx)
            w.ctx = w.ctx.with_trace_activities([[P.ActivityInTraceInfo(allr[a % len(allr)], b, l) for a, b, l in t
                                                  if b + l <= len(now[i])] if allr else [] for i, t in enumerate(
                                                     (s['inst'] + [[]] * len(now))[:len(now)])])
        elif k == 'instances':
            if s['fn']:
                r = P.extract_activities_from_log(accessors.log(w.ctx), accessors.activities(w.ctx), event_class_extractor=ex,
                                                  activity_filter=flt(s['filter']), should_narrow_activity=s['narrow'])
                w.ctx = w.ctx.with_trace_activities(r)
            else:
                kw = {'class_extractor': ex} if ex else {}
                if s['filter']['k'] != 'all':
                    kw['activity_in_trace_filter'] = flt(s['filter'])
                if not s['narrow']:
                    kw['should_narrow_activity'] = False
                w.ctx = DiscoverActivitiesInTraces(**kw)(w.ctx)
        elif k == 'clear':
            w.ctx = ClearActivities()(w.ctx)
        elif k == 'unattached':
            r = P.create_unattached_events_log(accessors.log(w.ctx), accessors.traces_activities(w.ctx))
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                CalculatePercentageOfUnattachedEvents()(w.ctx)
            nums = re.findall(r'[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?', buf.getvalue())
            extra = {'rest': w.log(r), 'share': int(round(float(nums[-1]) * 10 ** 6)) if nums else -1}
        elif k == 'fill':
            kw = {}
            if s['filter']['k'] != 'all':
                kw['activities_in_trace_filter'] = flt(s['filter'])
            if not s['narrow']:
                kw['should_narrow_activity'] = False
            if s['min'] != 1:
                kw['min_numbers_of_events'] = s['min']
            w.ctx = DiscoverActivitiesInUnattachedSubTraces(exd, **kw)(w.ctx)
        elif k in ('adjust', 'levels'):
            kw = {}
            if s['filter']['k'] != 'all':
                kw['activity_in_trace_filter' if k == 'levels' else 'activities_in_trace_filter'] = flt(s['filter'])
            if not s['narrow']:
                kw['should_narrow_activity'] = False
            mode = AdjustingMode.FromAllLog if s['whole'] else AdjustingMode.FromUnattachedSubTraces
            if k == 'adjust':
                w.ctx = AdjustWithActivitiesFromUnattachedEvents(exd, s['level'], activities_discovery_strategy=strategy(s),
                                                                 min_events_in_trace=s['min'], adjusting_mode=mode, **kw)(w.ctx)
            else:
                w.ctx = DiscoverActivitiesForSeveralLevels([extractor(x) for x in s['maps']], discovering_strategy=strategy(s),
                                                           initial_activity_level=s['level'], min_events_in_traces=s['min'],
                                                           adjusting_mode=mode, **kw)(w.ctx)
        elif k == 'abstract':
            src = accessors.log(w.ctx)
            kw = {} if s['hashes'] else {'use_hashes_as_names': False}
            if s['strategy'] != 'all':
                kw['strategy'] = STR[s['strategy']]
            ids = {id(e) for t in src for e in t}
            w.keep.append(src)
            w.ctx = CreateLogFromActivities(**kw)(w.ctx)
            extra = {'copies': all(id(u) not in ids for t in accessors.log(w.ctx) for e in t if id(e) not in ids and UE in e
                                   for u in e[UE])}
        elif k == 'substitute':
            w.ctx = SubstituteUnderlyingEvents()(w.ctx)
        elif k == 'count':
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                PrintNumberOfUnderlyingEvents()(w.ctx)
            extra = {'n': as_int(P.calculate_underlying_events_count(accessors.log(w.ctx))),
                     'printed': int(re.findall(r'\d+', buf.getvalue())[-1])}
        elif k == 'until':
            rounds = []

            class Before(InternalPipelinePart):
                def execute(self, c):
                    rounds.append({'pre': w.log(accessors.log(c)), 'acts': w.acts(accessors.activities(c)),
                                   'inst': w.inst(accessors.traces_activities(c)),
                                   'names': [[[w.code(x.node.unique_name()), w.code(x.node.name)] for x in t]
                                             for t in accessors.traces_activities(c)],
                                   'levels': sorted({as_int(x.node.activity_level) for t in accessors.traces_activities(c) for x in t})})
                    return c

            class After(InternalPipelinePart):
                def execute(self, c):
                    rounds[-1]['post'] = w.log(accessors.log(c))
                    return c
            kw = {}
            if s['filter']['k'] != 'all':
                kw['activity_in_trace_filter'] = flt(s['filter'])
            if not s['narrow']:
                kw['should_narrow_activity'] = False
            r = DiscoverActivitiesInstancesFromRepeatsUntilNoMore(
                exd, use_hashes_as_event_name=s['hashes'], discovery_strategy=strategy(s), initial_activity_level=s['level'],
                increase_activity_level=s['inc'], before_log_creation_pipeline=Pipeline(Before()),
                after_log_creation_pipeline=Pipeline(After()), **kw)(w.ctx)
            w.ctx = PipelinePartResult().with_log(accessors.log(r))
            extra = {'rounds': rounds, 'n': as_int(P.calculate_underlying_events_count(accessors.log(r)))}
        elif k in ('split', 'promote'):
            if k == 'split':
                r = CreateLogsForActivities(s['level'], exd)(w.ctx)
            else:
                kw = {} if s['adjust'] else {'adjust_events_to_max_level': False}
                r = CreateLogsForActivitiesWithPromote(s['level'], [extractor(x) for x in s['maps'][:s['level'] + 1]], **kw)(w.ctx)
            logs = accessors.activities_to_logs(r)
            extra = {'logs': [[w.code(n), w.log(l)] for n, l in logs.items()]}
            seen = []

            class Probe(InternalPipelinePart):
                def execute(self, c):
                    seen.append([w.code(accessors.activity_name(c)), w.log(accessors.log(c)), sorted(c.values) ==
                                 sorted([log_key, activity_name_key])])
                    c.with_activities([]).with_custom_data('x', 1)
                    return c
            before = dict(r.values)
            r2 = ExecuteWithEachActivityLog(Pipeline(Probe()))(r)
            extra['each'] = seen
            extra['kept'] = r2.values == before and all(r2.values[q] is before[q] for q in before)
            # the logs of the activities are logs of their own
            mine = {id(e) for t in accessors.log(w.ctx) for e in t}
            extra['own'] = all(id(e) not in mine for l in logs.values() for t in l for e in t)
            w.ctx = r
        else:
            raise ValueError(k)
        return extra

    init = w.state()
    steps = []
    for s in case['ops']:
        def f():
            x = op(s)
            x['st'] = w.state()
            x['intact'] = w.intact(accessors.log(w.ctx)) and w.stable()
            return x
        o = obs(f)
        steps.append(dict(s, obs=o))
        if o['err']:
            break
    for s in steps:
        s['map'] = s.get('map') or []
    return {'t': case['t'], 'init': init, 'steps': steps, 'nodes': w.finish()}


run_driver(run)
