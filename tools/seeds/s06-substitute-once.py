PROPERTY = 'C13'
NEEDS = 'two levels of abstraction'
BREAKS = 'substituting underlying events stops after one level of abstraction'
EDITS = [('legacy/analysis/patterns/util.py', '            new_list.extend(substitute_original_events(event[underlying_events_key]))', '            new_list.extend(event[underlying_events_key])')]
DEMO = r'''
from python.ficus.legacy.log.event_log import MyEvent, MyTrace
from python.ficus.legacy.analysis.patterns.util import substitute_original_events
from python.ficus.legacy.analysis.patterns.constants import underlying_events_key as u

def ev(name, under=None):
    e = MyEvent({'concept:name': name})
    if under is not None:
        e[u] = under
    return e
t = MyTrace([ev('x', [ev('y', [ev('a'), ev('b')]), ev('c')]), ev('d')])
sys.exit(0 if [e['concept:name'] for e in substitute_original_events(t)] == ['a', 'b', 'c', 'd'] else 1)
'''
