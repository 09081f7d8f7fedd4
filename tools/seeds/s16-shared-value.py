PROPERTY = 'C16'
NEEDS = 'an event with a mutable value that is changed after a conversion to pm4py'
BREAKS = 'a converted log shares mutable attribute values with the log it was made from'
EDITS = [('legacy/log/pm4py_converters.py', 'event[copy.deepcopy(key)] = copy.deepcopy(value)', 'event[key] = value')]
DEMO = r'''
from python.ficus.legacy.log.event_log import *
from python.ficus.legacy.log.pm4py_converters import *
log = MyEventLog([MyTrace([MyEvent({'concept:name': 'a', 'v': [1]})])])
other = to_pm4py_log(log)
log[0][0]['v'].append(2)
sys.exit(0 if other[0][0]['v'] == [1] else 1)
'''
