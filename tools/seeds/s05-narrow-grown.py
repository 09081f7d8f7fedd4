PROPERTY = 'C12'
NEEDS = 'an activity that grows to a larger one and is narrowed afterwards, with a child of the larger one that does not have the class it grew by'
BREAKS = 'the class by which an instance grew is forgotten, the instance is narrowed to an activity that does not cover it'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '                    if found_new_set:\n                        current_set.add(event_hash)\n                        break\n\n                if not found_new_set:', '                    if found_new_set:\n                        break\n\n                if not found_new_set:')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.event_log_patterns import extract_activities_from_log
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode
from python.ficus.legacy.util import calculate_string_poly_hash as h

def node(s):
    return ActivityNode('::'.join(s), None, {h(c) for c in s}, lambda e: e['concept:name'], 0)
small, big = node('ab'), node('abc')
big.child_nodes.append(small)
r = extract_activities_from_log(parse_log_from_strings([' '.join('abca')], ' '), [small, big])[0]
sys.exit(0 if [(x.node.name, x.start_pos, x.length) for x in r] == [('a::b::c', 0, 4)] else 1)
'''
