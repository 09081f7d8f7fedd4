from common import *
from python.ficus.legacy.analysis.patterns import event_log_patterns as P
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource as R
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverTandemArrays, DiscoverRepeats
from python.ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind as K

FN = {'tandem_max': (P.find_maximal_tandem_arrays, K.MaximalArray), 'tandem_prim': (P.find_primitive_tandem_arrays, K.PrimitiveArray),
      'maximal': (P.find_maximal_repeats, R.MaximalRepeats), 'super': (P.find_super_maximal_repeats, R.SuperMaximalRepeats),
      'near': (P.find_near_super_maximal_repeats, R.NearSuperMaximalRepeats)}


def run(case):
    names = Names(case.get('scheme', 0))
    log = mk_log(case['log'], names)
    before = enc_log(log, names)
    nc = len(names.names)
    ident = list(range(nc))
    steps = []
    for s in case['ops']:
        mp = s.get('map') or ident

        def f():
            ex = (lambda e: names.n(mp[names.c(e[CN])])) if s.get('map') else None
            tandem = s['op'].startswith('tandem')
            fn, kind = FN[s['op']]
            if s['part']:
                kw = {}
                if tandem and s['bound'] != 20:
                    kw['max_loop_length'] = s['bound']
                if ex:
                    kw['class_extractor'] = ex
                p = (DiscoverTandemArrays if tandem else DiscoverRepeats)(kind, **kw)
                r = accessors.patterns(p(PipelinePartResult().with_log(log)))
            elif tandem:
                kw = {} if s['bound'] == 10 else {'max_tandem_array_length': s['bound']}
                if ex:
                    kw['event_class_extractor'] = ex
                r = fn(log, **kw)
            else:
                r = fn(log, event_class_extractor=ex) if ex else fn(log)
            if tandem:
                res = [[[as_int(a.first_pos), as_int(a.length), as_int(a.repeat_count)] for a in t] for t in r]
            else:
                res = [[[as_int(a.first_pos), as_int(a.length)] for a in t] for t in r]
            return {'res': res, 'same': enc_log(log, names) == before}
        steps.append({'op': s['op'], 'map': mp, 'bound': s.get('bound', 0), 'obs': obs(f)})
    return {'t': case['t'], 'log': case['log'], 'steps': steps}


run_driver(run)
