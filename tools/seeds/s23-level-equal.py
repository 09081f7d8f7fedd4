PROPERTY = 'C15'
NEEDS = 'an activity that is below the desired level, found in events which after promotion have more classes than its own'
BREAKS = 'an instance is promoted as soon as it has all classes of its repeat set, even if it has others too'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '''        if repeat_event_classes_set == this_activity_event_classes_set:
            new_trace''', '''        if repeat_event_classes_set.issubset(this_activity_event_classes_set):
            new_trace''')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.event_log_patterns import create_logs_for_activities_with_promote
from python.ficus.legacy.analysis.patterns.patterns_models import *
log = parse_log_from_strings(['a b c'], ' ')
n = ActivityNode('x', SubArrayWithTraceIndex(0, 2, 0), {1}, log[0][0:2], 0) if False else None
from python.ficus.legacy.analysis.common.common_models import *
import inspect
n = ActivityNode('x', None, {1}, lambda e: e['concept:name'], 0)
n.repeat_set_events = log[0][0:2]
f = lambda e: e['concept:name']
r = create_logs_for_activities_with_promote(log, [[ActivityInTraceInfo(n, 0, 3)]], 1, [f, f])
sys.exit(0 if r == {} else 1)
'''
