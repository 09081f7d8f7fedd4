from common import *
from python.ficus.legacy.analysis.event_log_info import (create_log_information, create_dfg,
                                                         calculate_events_in_each_trace, calculate_events_count,
                                                         find_all_events_names)

START, END = -1, -2


def run(case):
    names = Names(case.get('scheme', 0))

    def code(n):
        return START if n == 'FAKE_START' else END if n == 'FAKE_END' else names.c(n)

    def enc_info(pairs, foll, single, counts):
        return {'pairs': [[code(a), code(b), as_int(n)] for (a, b), n in pairs.items()],
                'foll': [[code(a), code(b), as_int(n)] for a, d in foll.items() for b, n in d.items()],
                'single': [code(a) for a in single],
                'counts': counts}

    steps = []
    log = mk_log(case['log'], names)
    classes = sorted({c for t in case['log'] for c in t})
    igns = [[]] + [[c] for c in classes] + ([classes[:2], classes] if len(classes) > 1 else [])
    for ign in igns:
        for fake in (True, False):
            def f():
                info = create_log_information(log, {names.n(c) for c in ign} if ign else None,
                                              add_fake_start_end_events=fake)
                d = info.dfg
                return enc_info(d.pairs, d.followed_events, d.events_with_single_follower,
                                [[code(c), as_int(n)] for c, n in info.events_count.items()])
            steps.append({'op': 'info', 'log': case['log'], 'ign': ign, 'fake': fake, 'obs': obs(f)})

    def g():
        d = create_dfg(log)
        cnt = {}
        for tr in case['log']:
            for c in tr:
                cnt[c] = cnt.get(c, 0) + 1
        return enc_info(d.pairs, d.followed_events, d.events_with_single_follower, [[a, b] for a, b in cnt.items()])
    steps.append({'op': 'info', 'log': case['log'], 'ign': [], 'fake': False, 'obs': obs(g)})

    ids, i = [], 0
    for tr in case['log']:
        ids.append([])
        for _ in tr:
            i += 1
            ids[-1].append(i)
    bad = [j for j in range(1, i + 1) if (j * 7 + case.get('salt', 0)) % 3 == 0]

    def h():
        tc = calculate_events_in_each_trace(log)
        hold = find_all_events_names(log, lambda e: e['id'] not in bad)
        return {'tc': [{'n': as_int(x.overall_count), 'cs': [[names.c(a), as_int(b)] for a, b in x.counts.items()]}
                       for x in tc],
                'total': as_int(calculate_events_count(log)),
                'hold': [names.c(x) for x in hold]}
    steps.append({'op': 'pertrace', 'log': case['log'], 'ids': ids, 'bad': bad, 'obs': obs(h)})
    return {'t': case['t'], 'steps': steps}


run_driver(run)
