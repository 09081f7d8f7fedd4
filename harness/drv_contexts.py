from common import *
import copy, zlib
from python.ficus.legacy.pipelines.pipelines import *
from python.ficus.legacy.pipelines.contexts.part_results import *
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.contexts.keys import *
from python.ficus.legacy.pipelines.analysis.high_level import *
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.models import *
from python.ficus.legacy.pipelines.mutations.mutations_parts import *
from python.ficus.legacy.pipelines.filtering.filter_parts import *
from python.ficus.legacy.pipelines.start.start_parts import *
from python.ficus.legacy.pipelines.discovery.discovery_parts import *
from python.ficus.legacy.log.event_log import *

ACC = {log_key: accessors.log, activities_key: accessors.activities, repeat_sets_key: accessors.repeat_sets,
       traces_activities_key: accessors.traces_activities, patterns_key: accessors.patterns,
       petri_net_key: accessors.petri_net, event_class_tree_key: accessors.event_class_tree,
       activities_to_logs_key: accessors.activities_to_logs, serialized_graph_key: accessors.serialized_graph,
       graph_key: accessors.graph, activity_name_key: accessors.activity_name}
ALL = list(ACC)


def ex0(e):
    return e['concept:name']


def ex1(e):
    return e['concept:name'][0]


def edit(e):
    e['note'] = 'x'


def mk(name):
    R, T = RepeatActivitiesSource, TandemArrayKind
    S = UndefinedActivityHandlingStrategy
    return {
        'tandem_max': lambda: DiscoverTandemArrays(T.MaximalArray, 6),
        'tandem_prim': lambda: DiscoverTandemArrays(T.PrimitiveArray, 6),
        'repeats_max': lambda: DiscoverRepeats(R.MaximalRepeats),
        'repeats_super': lambda: DiscoverRepeats(R.SuperMaximalRepeats),
        'repeats_near': lambda: DiscoverRepeats(R.NearSuperMaximalRepeats),
        'all_patterns': lambda: AddAllPatterns(),
        'repeat_sets': lambda: DiscoverRepeatsSets(),
        'activities0': lambda: DiscoverActivities(0),
        'activities1': lambda: DiscoverActivities(1),
        'in_traces': lambda: DiscoverActivitiesInTraces(),
        'in_traces_wide': lambda: DiscoverActivitiesInTraces(should_narrow_activity=False),
        'from_patterns': lambda: DiscoverActivitiesFromPatterns(
            DiscoverRepeats(R.MaximalRepeats), ActivitiesDiscoveryStrategy.DiscoverFromAllTraces),
        'from_patterns_merged': lambda: DiscoverActivitiesFromPatterns(DiscoverRepeats(R.MaximalRepeats)),
        'from_tandem': lambda: DiscoverActivitiesFromTandemArrays(T.MaximalArray, 6),
        'from_repeats': lambda: DiscoverActivitiesInstancesFromRepeats(R.SuperMaximalRepeats),
        'unattached_sub': lambda: DiscoverActivitiesInUnattachedSubTraces(ex0),
        'adjust_gaps': lambda: AdjustWithActivitiesFromUnattachedEvents(ex0, 1),
        'adjust_all': lambda: AdjustWithActivitiesFromUnattachedEvents(
            ex1, 1, adjusting_mode=AdjustingMode.FromAllLog),
        'levels': lambda: DiscoverActivitiesForSeveralLevels([ex0, ex1]),
        'until_no_more': lambda: DiscoverActivitiesInstancesFromRepeatsUntilNoMore(ex0),
        'clear': lambda: ClearActivities(),
        'abstract_all': lambda: CreateLogFromActivities(S.InsertAllEvents),
        'abstract_one': lambda: CreateLogFromActivities(S.InsertAsSingleEvent, use_hashes_as_names=False),
        'abstract_none': lambda: CreateLogFromActivities(S.DontInsert),
        'substitute': lambda: SubstituteUnderlyingEvents(),
        'activity_logs0': lambda: CreateLogsForActivities(0, ex1),
        'activity_logs1': lambda: CreateLogsForActivitiesWithPromote(1, [ex0, ex1]),
        'print_activities': lambda: PrintActivities(),
        'print_hashes': lambda: PrintActivitiesNamesToHashes(),
        'print_unattached': lambda: PrintUnattachedEvents(),
        'percentage': lambda: CalculatePercentageOfUnattachedEvents(),
        'underlying': lambda: PrintNumberOfUnderlyingEvents(),
        'class_tree': lambda: BuildEventClassTree([lambda n: n[0]]),
        'class_graph': lambda: BuildEventClassGraph('g'),
        'activity_graph': lambda: BuildActivityGraph(0, 'g'),
        'serialize_graph': lambda: SerializeGraph(),
        'petri': lambda: DiscoverPetriNetInductive(),
        'remove_name': lambda: RemoveEventFromLogByName('a1'),
        'remove_names': lambda: RemoveEventsFromLogByNames(['a1', 'b1']),
        'remove_pred': lambda: RemoveEventsFromLogPredicate(lambda e: e['concept:name'] == 'a2'),
        'by_count': lambda: FilterTracesByCount(2),
        'variants': lambda: FilterTracesByVariants(),
        'entropy_pos': lambda: PosEntropyDirectFilter(0.6, 1),
        'entropy_dfg': lambda: DfgEntropyDirectFilter(1.2, False, 1),
        'rename': lambda: PreprocessEventsNames(lambda x: x + '!'),
        'edit_events': lambda: PreprocessEvents(edit),
        'class_extract': lambda: ApplyClassExtractor(ex1),
        'lifecycle': lambda: RemoveLifecycleTransitionsAttributes(),
        'endpoints': lambda: AddArtificialStartEndEvents(),
        'annotate': lambda: AddActivityNameToAllEvents(),
    }[name]()


def d_val(v):
    if isinstance(v, MyEvent):
        return ('E', sorted((str(k), d_val(x)) for k, x in v.payload_items()))
    if isinstance(v, ActivityNode):
        return d_node(v)
    if isinstance(v, (list, tuple)):
        return ('L', [d_val(x) for x in v])
    if isinstance(v, dict):
        return ('D', sorted((str(k), d_val(x)) for k, x in v.items()))
    return (type(v).__name__, str(v))


def d_log(l):
    return ([([d_val(e) for e in tr], d_val(tr.attributes)) for tr in l], d_val(l.attributes), d_val(l.properties),
            d_val(l.global_values), d_val(l.extensions), d_val(l.classifiers))


def d_node(a):
    return ('A', a.name, a.activity_level, sorted(a.set_of_events), d_sub(a.repeat_set),
            [d_node(x) for x in a.child_nodes])


def d_class(a):
    return (a.name, sorted(d_class(x) for x in a.child_nodes))


def d_sub(s):
    return sorted((k, int(v)) for k, v in vars(s).items())


def d_net(w):
    n = w.petri_net
    return (sorted(p.name for p in n.places), sorted((t.name, str(t.label)) for t in n.transitions),
            sorted((a.source.name, a.target.name, a.weight) for a in n.arcs),
            sorted((p.name, c) for p, c in w.start_marking.items()), sorted((p.name, c) for p, c in w.end_marking.items()))


def digest(ctx):
    out = {}
    for k in ALL:
        if not ctx.has_value(k):
            continue
        v = ctx.get_value_or_throw(k)
        out[k] = value_digest(k, v)
    return out


def value_digest(k, v):
    if k == log_key:
        d = d_log(v)
    elif k == activities_key:
        d = [d_node(a) for a in v]
    elif k in (repeat_sets_key,):
        d = [d_sub(x) for x in v]
    elif k == patterns_key:
        d = [[d_sub(x) for x in t] for t in v]
    elif k == traces_activities_key:
        d = [[(d_node(x.node), x.start_pos, x.length) for x in t] for t in v]
    elif k == petri_net_key:
        d = d_net(v)
    elif k == event_class_tree_key:
        d = sorted(d_class(x) for x in v)
    elif k == activities_to_logs_key:
        d = [(n, d_log(x)) for n, x in v.items()]
    elif k == graph_key:
        d = sorted(str(v).split('\n'))
    else:
        d = str(v)
    return zlib.crc32(repr(d).encode())


class Look(InternalPipelinePart):
    def __init__(self, out):
        self.out = out

    def execute(self, current_input):
        self.out['keys'] = keys(current_input)
        self.out['dig'] = digest(current_input)
        return current_input


def keys(ctx):
    return [k for k in ALL if ctx.has_value(k)]


def build(codes):
    m = elog()
    names = ['a1', 'a2', 'b1', 'b2', 'c1']
    i = 0
    l = m.MyEventLog(attributes={'name': 'log'})
    for tr in codes:
        t = m.MyTrace(attributes={'case': 'c%d' % i})
        for c in tr:
            i += 1
            t.append(m.MyEvent({CN: names[c], 'id': i, 'lifecycle:transition': 'complete'}))
        l.append(t)
    return l


def diff(a, b):
    return sorted(k for k in a if k in b and a[k] != b[k])


def run(case):
    steps = []
    cur = Pipeline(UseExistingLog())(build(case['log']))
    failed = False
    for name in case['pre']:
        def f():
            if name == 'activity_graph' and not any(a.activity_level == 0 for a in accessors.activities(cur)):
                return {'skipped': True, 'keys': [], 'changed': [], 'mutated': []}
            refs = {k: cur.get_value_or_throw(k) for k in keys(cur)}
            b = digest(cur)
            r = mk(name)(cur)
            mutated = sorted(k for k in refs if value_digest(k, refs[k]) != b[k])
            return {'skipped': False, 'keys': keys(r), 'changed': diff(b, digest(r)), 'mutated': mutated, 'r': r}
        o = obs(f)
        cur = o.pop('r', cur)
        o.setdefault('skipped', False)
        steps.append({'op': 'part', 'part': name, 'obs': o})
        if o['err'] or o['skipped']:
            failed = True
            break

    def miss():
        out = []
        for k in ALL:
            n = 0
            for fn in (lambda: ACC[k](cur), lambda: cur.get_value_or_throw(k)):
                try:
                    fn()
                except (ValueError, KeyError):
                    n += 1
            if n == 2:
                out.append(k)
        return {'raised': out}
    o = obs(miss)
    o.setdefault('raised', ['?'])
    steps.append({'op': 'missing', 'obs': o})
    if failed:
        return {'t': case['t'], 'steps': steps}

    skip = []

    class Guard(InternalPipelinePart):
        """the graph of a level is only asked for when that level has activities"""
        def execute(self, current_input):
            if not any(a.activity_level == 0 for a in accessors.activities(current_input)):
                skip.append(1)
                raise StopIteration()
            return current_input

    def g():
        inner = []
        for x in case['inner']:
            if x == 'activity_graph':
                inner.append(Guard())
            inner.append(mk(x))
        refs = {k: cur.get_value_or_throw(k) for k in keys(cur)}
        b = digest(cur)
        sib = {'keys': keys(cur), 'dig': b}
        if case['kind'] == 'copy':
            blk = WithInputCopy(Pipeline(*inner))
        elif case['kind'] == 'par':
            blk = ParallelPipeline(Pipeline(*inner), Pipeline(Look(sib)))
        else:
            blk = ExecuteWithEachActivityLog(Pipeline(*inner))
        try:
            r = blk(cur)
        except StopIteration:
            r = cur
        return {'keys': keys(cur), 'same': all(r.has_value(k) and r.get_value_or_throw(k) is refs[k] for k in refs),
                'mutated': sorted(k for k in refs if value_digest(k, refs[k]) != b[k] or
                                  not cur.has_value(k) or value_digest(k, cur.get_value_or_throw(k)) != b[k]),
                'sibkeys': sib['keys'], 'sibchanged': diff(b, sib['dig'])}
    o = obs(g)
    steps.append({'op': 'block', 'kind': case['kind'], 'inner': case['inner'], 'obs': o})
    return {'t': case['t'], 'steps': steps}


run_driver(run)
