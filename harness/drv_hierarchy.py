from common import *
from python.ficus.legacy.analysis.patterns import event_log_patterns as P
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource as R
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind as K

SRC = {'maximal': R.MaximalRepeats, 'super': R.SuperMaximalRepeats, 'near': R.NearSuperMaximalRepeats,
       'tandem_max': K.MaximalArray, 'tandem_prim': K.PrimitiveArray}


def flatten(roots):
    """every node once per place in the hierarchy, with the index of its parent"""
    out, q = [], [(r, 0) for r in roots]
    while q:
        n, p = q.pop(0)
        out.append((n, p))
        if len(out) > 5000:
            raise Malformed('hierarchy does not end')
        i = len(out)
        q.extend((c, i) for c in n.child_nodes)
    return out


def run(case):
    names = Names(case.get('scheme', 0))
    log = mk_log(case['log'], names)
    before = enc_log(log, names)
    pats = [[SubArrayInEventLog(a, b) for a, b in t] for t in case['patterns']]
    ident = list(range(len(names.names)))
    steps = []

    def custom(sub, lg, ex):
        return 'N/%d/%d/%d' % (sub.trace_index, sub.first_pos, sub.length)

    def rs_of(r):
        return [as_int(r.trace_index), as_int(r.first_pos), as_int(r.length)]

    for s in case['ops']:
        mp = s.get('map') or ident
        ex = (lambda e: names.n(mp[names.c(e[CN])]) if e[CN] in names.codes else e[CN]) if s.get('map') else None

        def node(n, p):
            """class set of an activity, by its name"""
            nm = n.name.split('::')
            return {'set': [names.c(x) for x in nm], 'parent': p, 'level': as_int(n.activity_level), 'len': as_int(n.length)}

        def nodes(roots):
            fl = flatten(roots)
            named = all(x == sorted(x) for x in (n.name.split('::') for n, _ in fl))
            return [node(n, p) for n, p in fl], named, [rs_of(n.repeat_set) for n, _ in fl]

        def custom_nodes(roots, lg):
            fl = flatten(roots)
            out = []
            for n, p in fl:
                r = rs_of(n.repeat_set)
                cl = sorted({mp[names.c(e[CN])] for e in lg[r[0]][r[1]:r[1] + r[2]]})
                out.append({'set': cl, 'parent': p, 'level': as_int(n.activity_level), 'len': as_int(n.length)})
            return out, all(n.name == custom(n.repeat_set, None, None) for n, _ in fl), [rs_of(n.repeat_set) for n, _ in fl]

        def f():
            if s['op'] == 'sets':
                if s['part']:
                    ctx = PipelinePartResult().with_log(log).with_patterns(pats)
                    r = accessors.repeat_sets((DiscoverRepeatsSets(ex) if ex else DiscoverRepeatsSets())(ctx))
                else:
                    r = P.create_repeat_sets(log, pats, event_class_extractor=ex)
                res = {'sets': [rs_of(x) for x in r]}
            elif s['op'] == 'tree':
                sets = P.create_repeat_sets(log, pats, event_class_extractor=ex)
                ctx = PipelinePartResult().with_log(log).with_repeat_sets(sets)
                kw = {'activity_name_creator': custom} if s['custom'] else {}
                if ex:
                    kw['class_extractor'] = ex
                r = accessors.activities(DiscoverActivities(s['level'], **kw)(ctx))
                ns, named, poss = custom_nodes(r, log) if s['custom'] else nodes(r)
                res = {'nodes': ns, 'named': named, 'poss': poss}
            else:
                if s['kind'].startswith('tandem'):
                    src = DiscoverTandemArrays(SRC[s['kind']], s['bound'], ex)
                else:
                    src = DiscoverRepeats(SRC[s['kind']], ex)
                kw = {'activity_level': s['level']}
                if ex:
                    kw['class_extractor'] = ex
                kw['activities_discovery_strategy'] = (ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace if s['merged']
                                                       else ActivitiesDiscoveryStrategy.DiscoverFromAllTraces)
                ctx = PipelinePartResult().with_log(log).with_custom_data('k', [1])
                o = DiscoverActivitiesFromPatterns(src, **kw)(ctx)
                ns, named, _ = nodes(accessors.activities(o))
                res = {'nodes': ns, 'named': named,
                       'rest': accessors.log(o) is log and o.get_value_or_throw('k') == [1]}
            res['same'] = enc_log(log, names) == before
            return res
        q = dict(s, map=mp, obs=obs(f))
        steps.append(q)
    return {'t': case['t'], 'log': case['log'], 'patterns': case['patterns'], 'steps': steps}


run_driver(run)
