PROPERTY = 'C03'
NEEDS = 'a timestamp with an offset other than the one assumed'
BREAKS = 'the offset of a timestamp is dropped when a log is read'
EDITS = [('legacy/log/functions.py', '''    return parser.parse(value)
''', '''    return parser.parse(value, ignoretz=True)
''')]
DEMO = r'''
import tempfile, os
from datetime import datetime, timezone, timedelta
from python.ficus.legacy.log.event_log import *
from python.ficus.legacy.log.functions import *
with tempfile.TemporaryDirectory() as d:
    t = datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=3)))
    log = MyEventLog([MyTrace([MyEvent({'concept:name': 'a', 'time:timestamp': t})])])
    f = os.path.join(d, 'l.xes')
    save_event_log_to_xes(log, f)
    got = read_log_from_xes(f)[0][0]['time:timestamp']
sys.exit(0 if got.tzinfo is not None and got == t else 1)
'''
