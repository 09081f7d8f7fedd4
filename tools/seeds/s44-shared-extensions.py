PROPERTY = 'C16'
NEEDS = 'a shallow copy of a log of which one side then gets an extension the other does not have'
BREAKS = 'the extension appears in both, and the two stay equal'
EDITS = [('legacy/log/event_log.py', 'extensions=dict(self.extensions),', 'extensions=self.extensions,')]
DEMO = r'''
import copy
from python.ficus.legacy.log.event_log import *
a = MyEventLog([MyTrace()], extensions={'A': {'prefix': 'a'}})
b = copy.copy(a)
assert a == b
b.extensions['B'] = {'prefix': 'b'}
sys.exit(0 if a != b and list(a.extensions) == ['A'] else 1)
'''
