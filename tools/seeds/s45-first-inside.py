PROPERTY = 'C13'
NEEDS = 'abstracting a log twice, so that an activity spans an abstracted event that is not its first event'
BREAKS = 'the new event lists only the activities inside its first event'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '[x for evt in underlying_events for x in get_underlying_activities(evt)]',
          '[x for evt in underlying_events[:1] for x in get_underlying_activities(evt)]')]
DEMO = r'''
from python.ficus.legacy.log.event_log import *
from python.ficus.legacy.analysis.patterns.event_log_patterns import *
from python.ficus.legacy.analysis.patterns.patterns_models import *

def node(n):
    return ActivityNode(n, None, set(), None, 0)

def event(n):
    e = MyEvent()
    e['concept:name'] = n
    return e

A, B, C = node('A'), node('B'), node('C')
t = MyTrace()
for n in 'abcd':
    t.append(event(n))
log = MyEventLog([t])
one = create_new_log_from_activities(log, [[ActivityInTraceInfo(A, 0, 2), ActivityInTraceInfo(B, 2, 2)]], use_hashes_as_names=False)
two = create_new_log_from_activities(one, [[ActivityInTraceInfo(C, 0, 2)]], use_hashes_as_names=False)
got = [x.name for x in two[0][0]['UnderlyingActivities']]
sys.exit(0 if got == ['A', 'B', 'C'] else 1)
'''
