PROPERTY = 'C08'
NEEDS = 'traces of equal length that differ at their last position only, at least two of each'
BREAKS = 'variant grouping stops one position early when the number of groups did not change in the previous round'
EDITS = [('legacy/analysis/event_log_split.py', """            if all_groups_has_one_trace:
                break
""", """            if all_groups_has_one_trace or (index > 1 and len(new_groups) == len(groups) and index + 1 < len(traces[0])):
                break
""")]
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.analysis.event_log_split import split_log_by_traces

g = split_log_by_traces(parse_log_from_strings(['a b c d e', 'a b c d f', 'a b c d e'], ' '))
sys.exit(0 if sorted(map(len, g)) == [1, 2] else 1)
'''
