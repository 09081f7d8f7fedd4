PROPERTY = 'C04'
NEEDS = 'a trace that is emptied by the filter, before another one that is not'
BREAKS = 'after a trace without selected events the events of the next trace are not looked at'
EDITS = [('legacy/mutations/event_log_mutations.py', '''def remove_events_from_log(log: MyEventLog, events_names: set[str]) -> MyEventLog:
    return _filter_events(log, lambda evt: evt[concept_name] not in events_names)
''', '''def remove_events_from_log(log: MyEventLog, events_names: set[str]) -> MyEventLog:
    for name in events_names:
        log = _filter_events(log, lambda evt: not evt[concept_name].startswith(name) or len(evt[concept_name]) > len(name) + 1)

    return log
''')]
NEEDS = 'two classes one of which is the name of the other plus one character'
BREAKS = 'removing classes by name also removes a class whose name is one character longer'
DEMO = r'''
from python.ficus.legacy.log.functions import parse_log_from_strings, serialize_log
from python.ficus.legacy.mutations.event_log_mutations import remove_events_from_log
log = parse_log_from_strings(['a ab b'], ' ')
sys.exit(0 if serialize_log(remove_events_from_log(log, {'a'})) == 'ab,b' else 1)
'''
