PROPERTY = 'C07'
NEEDS = 'an untouchable class that comes before the one to be removed'
BREAKS = 'an untouchable class ends the search for the class to remove'
EDITS = [('legacy/filtering/event_log_filters.py', '''    for event_name in log_info.events_count.keys():
        if untouchable_event_func(event_name):
            continue
''', '''    for event_name in log_info.events_count.keys():
        if untouchable_event_func(event_name):
            break
''')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings, serialize_log
from python.ficus.legacy.filtering.event_log_filters import filter_events_pos_entropy_indirect
log = parse_log_from_strings(['u b c', 'u c b'], ' ')
r = filter_events_pos_entropy_indirect(log, 0, 1, lambda n: n == 'u')
sys.exit(0 if len({e['concept:name'] for t in r for e in t}) == 2 else 1)
'''
