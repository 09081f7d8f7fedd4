from common import *
import math
from python.ficus.legacy.analysis.event_log_analysis_entropy import *
from python.ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace


def fx(x, scale):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Malformed('not a number: %r' % x)
    return int(round(x * scale))


def run(case):
    names = Names(case.get('scheme', 0))
    log = mk_log(case['log'], names)
    classes = sorted({c for t in case['log'] for c in t})
    igns = [[]] + [[c] for c in classes[:3]] + ([classes[:2], classes[1:]] if len(classes) > 1 else [])
    steps = []
    for ign in igns:
        ns = {names.n(c) for c in ign}
        for lap in (False,) if case.get('big') else (False, True):
            def f():
                a = ns or None
                v = calculate_laplace_or_default_entropies(log, lap, a)
                w = (calculate_laplace_entropies if lap else calculate_default_entropies)(log, ignored_events=a)
                if {k: fx(x, 1e9) for k, x in v.items()} != {k: fx(x, 1e9) for k, x in w.items()}:
                    raise Malformed('selected entropies differ from the direct ones')
                return {'vals': [[names.c(k), fx(x, 1e5)] for k, x in v.items()],
                        'sum': fx(calculate_default_entropy_sum(log, lap, a), 1e5),
                        'avg': fx(calculate_default_entropy_average(log, lap, a), 1e5)}
            steps.append({'op': 'dfg', 'log': case['log'], 'ign': ign, 'lap': lap, 'obs': obs(f)})

        def g():
            pe = PositionEntropyIgnoredEvents(ns, calculate_events_in_each_trace(log)) if ns else None
            positions = create_events_positions(log)
            fast = calculate_position_entropies_fast(log, pe)
            cached = calculate_position_entropies_fast(log, pe, positions)
            ref = calculate_position_entropies(log, pe)
            one = {k: calculate_position_entropy_fast(log, k, pe) for k in ref}
            agree = set(fast) == set(ref) == set(cached) and all(
                abs(float(fast[k]) - float(ref[k])) < 1e-9 and abs(float(cached[k]) - float(ref[k])) < 1e-9 for k in ref)
            enc = lambda d: [[names.c(k), fx(x, 1e4)] for k, x in d.items()]
            return {'fast': enc(fast), 'cached': enc(cached), 'ref': enc(ref), 'one': enc(one), 'agree': bool(agree),
                    'sumfast': fx(calculate_position_entropies_fast_sum(log, pe, positions if case['salt'] % 2 else None), 1e4),
                    'sumref': fx(calculate_position_entropies_sum(log, pe), 1e4)}
        steps.append({'op': 'pos', 'log': case['log'], 'ign': ign, 'obs': obs(g)})
    return {'t': case['t'], 'steps': steps}


run_driver(run)
