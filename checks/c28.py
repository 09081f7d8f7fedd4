import random, re
import gen, rust
from c23 import ART, CLS, NAMES, RES, key

CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nINVARIANT SameAsWrittenOut\nINVARIANT Restores\n'
       'INVARIANT NothingAfterFailure\nCONSTANTS NP=%d ND=%d NF=%s\n')
BAD = ['[', '(', '*', '(?<x', '\\']
TABLE = {
    'FilterEventsByName': 'event_name', 'FilterEventsByRegex': 'regex', 'FilterLogByVariants': '', 'FilterTracesByEventsCount': 'events_count',
    'GetNamesEventLog': '', 'UseNamesEventLog': '', 'GetHashesEventLog': '', 'GetEventLogInfo': '', 'AddArtificialStartEndEvents': '',
    'AddArtificialStartEvents': '', 'AddArtificialEndEvents': '', 'ApplyClassExtractor': 'event_class_regex regex', 'TracesDiversityDiagram': '',
    'DrawPlacementOfEventByName': 'event_name', 'DrawPlacementOfEventsByRegex': 'regex', 'GetUnderlyingEventsCount': '',
    'DiscoverDirectlyFollowsGraph': ''}
HEAVY = {
    'FindMaximalRepeats': 'patterns_discovery_strategy', 'FindSuperMaximalRepeats': 'patterns_discovery_strategy',
    'FindNearSuperMaximalRepeats': 'patterns_discovery_strategy', 'FindPrimitiveTandemArrays': 'tandem_array_length',
    'FindMaximalTandemArrays': 'tandem_array_length', 'DiscoverActivities': 'activity_level',
    'DiscoverActivitiesInstances': 'narrow_activities min_activity_length activity_filter_kind',
    'CreateLogFromActivities': 'undef_activity_handling_strategy',
    'DiscoverActivitiesInUnattachedSubTraces': 'narrow_activities events_count min_activity_length activity_filter_kind',
    'DiscoverActivitiesForSeveralLevels': 'event_classes_regexes activity_level patterns_kind adjusting_mode patterns_discovery_strategy '
                                          'narrow_activities events_count min_activity_length activity_filter_kind tandem_array_length',
    'DiscoverActivitiesUntilNoMore': 'activity_level execute_only_on_last_extraction patterns_kind narrow_activities min_activity_length '
                                     'activity_filter_kind patterns_discovery_strategy tandem_array_length undef_activity_handling_strategy',
    'ExecuteWithEachActivityLog': 'pipeline activities_logs_source activity_level', 'DrawFullActivitiesDiagram': '',
    'DrawShortActivitiesDiagram': '', 'ClearActivities': '', 'DiscoverPetriNetAlpha': '', 'DiscoverPetriNetAlphaPlus': '',
    'DiscoverPetriNetAlphaPlusPlus': '', 'SerializePetriNet': 'path pnml_use_names_as_ids',
    'DiscoverPetriNetHeuristic': 'dependency_threshold positive_observations_threshold relative_to_best_threshold and_threshold '
                                 'loop_length_two_threshold',
    'DiscoverFuzzyGraph': 'unary_frequency_threshold binary_significance_threshold preserve_threshold ratio_threshold utility_rate '
                          'edge_cutoff_threshold node_cutoff_threshold',
    'AnnotatePetriNetWithCount': 'terminate_on_unreplayable_traces', 'AnnotatePetriNetWithFrequency': 'terminate_on_unreplayable_traces',
    'AnnotatePetriNetWithTraceFrequency': 'terminate_on_unreplayable_traces', 'EnsureInitialMarking': '', 'WriteLogToXes': 'path',
    'ReadLogFromXes': '', 'SubstituteUnderlyingEvents': ''}
CLASSY = ['GetHashesEventLog', 'FindMaximalRepeats', 'FindPrimitiveTandemArrays', 'DiscoverActivities', 'DiscoverActivitiesUntilNoMore',
          'DiscoverActivitiesInUnattachedSubTraces']
KINDS = ['MaximalRepeats', 'SuperMaximalRepeats', 'NearSuperMaximalRepeats', 'PrimitiveTandemArrays', 'MaximalTandemArrays']
PREP = ['FindMaximalRepeats', 'DiscoverActivities', 'DiscoverActivitiesInstances', 'DiscoverPetriNetAlpha', 'GetNamesEventLog']
DROPS = ['event_log', 'patterns', 'hashes_event_log', 'activities', 'trace_activities', 'petri_net', 'names_event_log']


def renamed(cls, flt, names):
    """what ApplyClassExtractor makes of each name; new names are added to the table"""
    out = []
    for i, n in list(enumerate(names)) + list(ART.items()):
        if re.search(flt, n):
            m = re.search(cls, n)
            if m and m.start() == 0:
                if m.group(0) not in names:
                    names.append(m.group(0))
                out.append([i, names.index(m.group(0))])
    return out


def node(rng, op, names, miss=0.05, bad=0.05):
    cfg = [k for k in (TABLE.get(op) or HEAVY.get(op) or '').split()]
    x = {'op': op, 'c': rng.randrange(min(6, len(names))), 'n': rng.randint(0, 4), 'bad': False}
    if op in CLASSY and rng.random() < 0.4:
        cfg.append('event_class_regex')
    if op in ('DiscoverActivitiesForSeveralLevels', 'DiscoverActivitiesUntilNoMore'):
        x['kind'] = rng.choice(KINDS)
        x['adj'] = rng.choice(['FromAllLog', 'FromUnattachedSubTraces'])
    if op == 'ExecuteWithEachActivityLog':
        x['source'] = rng.choice(['Log', 'TracesActivities'])
        x['sub'] = []
    if 'regex' in cfg:
        x['re'] = rng.choice(RES)
        x['set'] = [i for i, n in list(enumerate(names)) + list(ART.items()) if re.search(x['re'], n)]
    if 'event_class_regex' in cfg:
        x['cls'] = rng.choice(CLS)
        x['key'] = key(x['cls'], names)
    if op == 'ApplyClassExtractor':
        x['ren'] = renamed(x['cls'], x['re'], names)
    if rng.random() < bad and ('regex' in cfg or 'event_class_regex' in cfg):
        x[rng.choice([k for k, c in (('re', 'regex'), ('cls', 'event_class_regex')) if c in cfg])] = rng.choice(BAD)
        x['bad'] = True
    if miss and rng.random() < miss and cfg:
        for k in rng.sample(cfg, rng.randint(1, len(cfg))):
            cfg.remove(k)
        x['bad'] = False
        x.update({f: v for f, v in (('re', '.'), ('cls', '.*')) if f in x})
    x['cfg'] = cfg
    return x


def prog(rng, names, depth, n):
    out = []
    for _ in range(n):
        if depth and rng.random() < 0.25:
            out.append({'op': 'ExecuteFrontendPipeline', 'cfg': ['pipeline'], 'bad': False, 'sub': prog(rng, names, depth - 1, rng.randint(0, 3))})
        else:
            out.append(node(rng, rng.choice(list(TABLE)), names))
    return out


def extend(names, steps):
    """every renaming and selection covers the names added later"""
    def walk(p):
        for x in p:
            if x.get('re') and not x['bad']:
                x['set'] = [i for i, n in list(enumerate(names)) + list(ART.items()) if re.search(x['re'], n)]
            if x.get('cls') and not x['bad']:
                x['key'] = key(x['cls'], names)
            if x['op'] == 'ApplyClassExtractor' and not x['bad'] and len(x['cfg']) == 2:
                x['ren'] = renamed(x['cls'], x['re'], names)
            walk(x.get('sub', []))
    for _ in range(4):
        for s in steps:
            walk(s['prog'])


def history(rng, t, log, names):
    names = list(names)
    steps = [{'drop': [], 'fail': rng.choice([0, 0, 0, rng.randint(1, 12)]), 'prog': prog(rng, names, 2, rng.randint(1, 5))} for _ in range(rng.randint(1, 3))]
    extend(names, steps)
    return {'t': t, 'given': [], 'haslog': rng.random() < 0.93, 'log': log, 'names': names, 'steps': steps}


def table(rng, log, names, op, drop, miss, bad, kw):
    names = list(names)
    x = node(rng, op, names, 0, 0)
    if bad or rng.random() < 0.2:
        if op in CLASSY and 'event_class_regex' not in x['cfg']:
            x['cfg'].append('event_class_regex')
            x['cls'] = rng.choice(CLS)
    x.update(kw)
    x['cfg'] = [k for k in x['cfg'] if k not in miss]
    x['bad'] = False
    if bad:
        f = [f for f, k in (('re', 'regex'), ('cls', 'event_class_regex')) if k in x['cfg']]
        if f:
            x['bad'] = True
            x[rng.choice(f)] = rng.choice(BAD)
    steps = [{'drop': [], 'fail': 0, 'prog': [node(rng, p, names, 0, 0) for p in PREP]}, {'drop': drop, 'fail': 0, 'prog': [x]}]
    extend(names, steps)
    return {'given': rng.choice([[], ['path']]), 'haslog': True, 'log': log, 'names': names, 'steps': steps}


def tables(rng, n):
    """every part, with everything it needs, without each single thing, without several, with an invalid regex"""
    logs = [[[0, 1, 2, 0, 1, 2], [0, 1, 0, 1, 3]], [[3, 0, 1, 2], [0, 1, 2], [0, 1, 2]]]
    for op in list(TABLE) + list(HEAVY):
        keys = (TABLE.get(op) or HEAVY.get(op) or '').split()
        kws = [{}]
        if op in ('DiscoverActivitiesForSeveralLevels', 'DiscoverActivitiesUntilNoMore'):
            kws = [{'kind': k, 'adj': a} for k in KINDS for a in ('FromAllLog', 'FromUnattachedSubTraces')]
        elif op == 'ExecuteWithEachActivityLog':
            kws = [{'source': k} for k in ('Log', 'TracesActivities')]
        for kw in kws:
            yield table(rng, rng.choice(logs), rng.choice(NAMES), op, [], [], False, kw)
            yield table(rng, rng.choice(logs), rng.choice(NAMES), op, [], [], True, kw)
            for d in DROPS:
                yield table(rng, rng.choice(logs), rng.choice(NAMES), op, [d], [], False, kw)
            for k in keys:
                yield table(rng, rng.choice(logs), rng.choice(NAMES), op, [], [k], False, kw)
        for _ in range(n):
            yield table(rng, gen.rlog(rng, rng.randint(1, 4), 5, 7), rng.choice(NAMES), op, rng.sample(DROPS, rng.choice([0, 0, 1, 2, 7])),
                        rng.sample(keys, rng.randint(0, len(keys))) if rng.random() < 0.5 else [], rng.random() < 0.3, rng.choice(kws))


def run(c):
    r = c.model('MCRsPipelines', CFG % c.pick((2, 1, '{1,2,3,5}'), (2, 1, '{1,2,3,4,5,6,7,8}')), label='NP=2')
    rng = random.Random(c.seed)
    ms = r.cases if len(r.cases) <= c.pick(5000, 30000) else rng.sample(r.cases, c.pick(5000, 30000))
    cases = []
    for i, x in enumerate(ms):
        cases.append({'t': 'm%d' % i, 'given': [], 'haslog': x['haslog'], 'log': x['log'], 'names': ['A', 'B'],
                      'steps': [{'drop': [], 'fail': x['fail'], 'prog': x['prog']}]})
    for i in range(c.pick(2500, 20000)):
        cases.append(history(rng, 'r%d' % i, gen.rlog(rng, rng.randint(1, 5), 6, 7), rng.choice(NAMES)))
    for i, x in enumerate(tables(rng, c.pick(8, 100))):
        cases.append(dict(x, t='k%d' % i))
    c.validate('TraceRsPipelines', rust.drive(c, 'rs_pipes', cases))
