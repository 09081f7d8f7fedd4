from common import *
import math
from python.ficus.legacy.filtering.event_log_filters import *
from python.ficus.legacy.pipelines.filtering.filter_parts import *
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult


def fx(x, scale):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Malformed('not a number: %r' % x)
    return int(round(x * scale))


def apply(kind, log, thr, limit, unt, top, part):
    kw = {} if limit is None else {'max_events_to_remove': limit}
    if kind == 'pos_direct':
        if part:
            return accessors.log(PosEntropyDirectFilter(thr / 1e4, untouchable_event_func=unt, **kw)(PipelinePartResult().with_log(log)))
        return filter_events_pos_entropy_direct(log, thr / 1e4, untouchable_event_func=unt, **kw)
    if kind == 'pos_indirect':
        if part:
            return accessors.log(PosEntropyIndirectFilter(thr / 1e4, untouchable_event_func=unt, **kw)(PipelinePartResult().with_log(log)))
        return filter_events_pos_entropy_indirect(log, thr / 1e4, untouchable_event_func=unt, **kw)
    lap = kind.startswith('lap')
    if kind.endswith('_direct'):
        if part:
            return accessors.log(DfgEntropyDirectFilter(thr / 1e5, lap, **kw)(PipelinePartResult().with_log(log)))
        return filter_events_default_entropy_direct(log, lap, thr / 1e5, untouchable_event_func=unt, **kw)
    if part:
        return accessors.log(DfgEntropyIndirectFilter(thr / 1e5, lap, top_percent=top, **kw)(PipelinePartResult().with_log(log)))
    return filter_events_default_entropy_indirect(log, lap, thr / 1e5, top, untouchable_event_func=unt, **kw)


def run(case):
    names = Names(case.get('scheme', 0))
    n_classes = len({c for t in case['log'] for c in t})
    steps = []
    for s in case['runs']:
        prot = {names.n(c) for c in s['prot']}
        unt = (lambda n: n in prot) if prot else default_untouchable_func
        log = mk_log(case['log'], names)
        ev = enc_log(log, names)
        if s['op'] == 'filter':
            top = s['top'][0] / s['top'][1]
            part = s['part'] and (not prot or s['kind'].startswith('pos'))

            def f():
                res = []
                for i in range(n_classes + 2):
                    res.append(enc_log(apply(s['kind'], log, s['thr'], i, unt, top, part), names))
                full = enc_log(apply(s['kind'], log, s['thr'], None, unt, top, part), names)
                return {'res': res, 'full': full, 'given': enc_log(log, names)}
            steps.append({'op': 'filter', 'events': ev, 'kind': s['kind'], 'thr': s['thr'], 'prot': s['prot'],
                          'top': s['top'], 'obs': obs(f, 10)})
        else:
            def g():
                mk = TillEndFilteringMetricKind.AfterBeforeDelta if s['delta'] else TillEndFilteringMetricKind.BeforeOnly
                fn = filter_events_pos_entropy_direct_till_end if s['kind'] == 'pos_direct' else \
                    filter_events_pos_entropy_indirect_till_end
                rem = fn(log, mk, unt)
                return {'rem': [[names.c(a), fx(b, 1e4)] for a, b in rem], 'given': enc_log(log, names) == ev}
            steps.append({'op': 'end', 'log': case['log'], 'kind': s['kind'], 'prot': s['prot'], 'delta': s['delta'],
                          'obs': obs(g, 10)})
    return {'t': case['t'], 'steps': steps}


run_driver(run)
