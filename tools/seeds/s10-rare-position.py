PROPERTY = 'C06'
NEEDS = 'a log with more than a hundred traces, where a class is at some position in one of them only'
BREAKS = 'rare positions of a class are left out of its position entropy'
EDITS = [('legacy/analysis/event_log_analysis_entropy.py', '''    probabilities = probabilities[probabilities != 0]
''', '''    probabilities = probabilities[probabilities > 0.01]
''')]
DEMO = r'''
import math
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.event_log_analysis_entropy import *
log = parse_log_from_strings(['a b'] * 149 + ['b a'], ' ')
want = -(math.log(149 / 150) + math.log(1 / 150)) / math.log(150) / 2
sys.exit(0 if all(abs(f(log)['a'] - want) < 1e-9 for f in (calculate_position_entropies, calculate_position_entropies_fast)) else 1)
'''
