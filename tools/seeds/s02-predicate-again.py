PROPERTY = 'C05'
NEEDS = 'a class whose events satisfy the predicate, then do not, then do again'
BREAKS = 'the class is reported although one of its events does not satisfy the predicate'
EDITS = [('legacy/analysis/event_log_info.py', """                if event_name in predicate_hold:
                    predicate_hold.remove(event_name)

                predicate_not_hold.add(event_name)
                continue
""", """                if event_name in predicate_hold:
                    predicate_hold.remove(event_name)
                else:
                    predicate_not_hold.add(event_name)

                continue
""")]
DEMO = r'''
from python.ficus.legacy.log.event_log import *
from python.ficus.legacy.analysis.event_log_info import find_all_events_names

log = MyEventLog([MyTrace([MyEvent({'concept:name': 'a', 'v': v}) for v in (1, 0, 1)])])
sys.exit(0 if find_all_events_names(log, lambda e: e['v'] == 1) == set() else 1)
'''
