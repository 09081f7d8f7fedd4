PROPERTY = 'C14'
NEEDS = 'a gap of exactly the required size'
BREAKS = 'no activities are looked for in gaps of exactly the required size'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '            if len(hashes) < min_number_of_events:', '            if len(hashes) <= min_number_of_events:')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.event_log_patterns import add_unattached_activities
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo
from python.ficus.legacy.util import calculate_string_poly_hash as h

def node(s):
    return ActivityNode('::'.join(s), None, {h(c) for c in s}, lambda e: e['concept:name'], 0)
a, b = node('a'), node('bc')
r = add_unattached_activities(parse_log_from_strings([' '.join('aabc')], ' '), [b], [[ActivityInTraceInfo(a, 0, 2)]], lambda e: e['concept:name'], min_number_of_events=2)[0]
sys.exit(0 if [(x.node.name, x.start_pos, x.length) for x in r] == [('a', 0, 2), ('b::c', 2, 2)] else 1)
'''
