PROPERTY = 'C09'
NEEDS = 'a loop with a block of odd length that starts with a shorter loop of (length + 1) / 2 events'
BREAKS = 'the loop is reported as primitive although a shorter loop starts at its position'
EDITS = [('legacy/analysis/patterns/event_log_patterns.py', "for current_length in range(2, int((array.length + 1) / 2 + 1)):", "for current_length in range(2, array.length // 2 + 1):")]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.patterns.event_log_patterns import find_primitive_tandem_arrays

r = find_primitive_tandem_arrays(parse_log_from_strings([' '.join('aaaaaa')], ' '))[0]
sys.exit(0 if [(a.first_pos, a.length, a.repeat_count) for a in r] == [(0, 2, 3)] else 1)
'''
