PROPERTY = 'C14'
NEEDS = 'a trace in which two gaps lie on both sides of an existing instance, the first shorter than the minimum'
BREAKS = 'a gap that is too short ends the search for activities in the rest of its trace'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', '''        def process_undefined_events(start_index: int, end_index: int):
            def adjust''', '''        skipped = []

        def process_undefined_events(start_index: int, end_index: int):
            if len(skipped) > 0:
                return

            def adjust'''), ('legacy/analysis/patterns/event_log_patterns.py', '''            if len(hashes) < min_number_of_events:
                return
''', '''            if len(hashes) < min_number_of_events:
                skipped.append(start_index)
                return
''')]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.event_log_patterns import add_unattached_activities
from python.ficus.legacy.analysis.patterns.patterns_models import *
from python.ficus.legacy.util import calculate_string_poly_hash as h
f = lambda e: e['concept:name']
log = parse_log_from_strings(['a x a b'], ' ')
n = ActivityNode('a::b', None, {h('a'), h('b')}, f, 0)
x = ActivityNode('x', None, {h('x')}, f, 0)
r = add_unattached_activities(log, [n], [[ActivityInTraceInfo(x, 1, 1)]], f, min_number_of_events=2)
sys.exit(0 if [i.start_pos for i in r[0]] == [1, 2] else 1)
'''
