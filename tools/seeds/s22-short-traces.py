PROPERTY = 'C22'
NEEDS = 'a log with a rare variant and the default parameters'
BREAKS = 'rare behaviour is treated as noise by default, its traces cannot be replayed'
EDITS = [('legacy/pipelines/discovery/discovery_parts.py', 'def __init__(self, noise_threshold: float = 0):', 'def __init__(self, noise_threshold: float = 0.1):')]
DEMO = r'''
import pm4py
from python.ficus.legacy.log.functions import parse_log_from_strings
from python.ficus.legacy.log.pm4py_converters import to_pm4py_log
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.discovery.discovery_parts import DiscoverPetriNetInductive
from pm4py.algo.conformance.tokenreplay import algorithm as replay
log = parse_log_from_strings(['a d d a'] * 30 + ['c b a c'] * 2 + ['a'], ' ')
w = DiscoverPetriNetInductive().execute(PipelinePartResult().with_log(log)).values['petri_net']
r = replay.apply(to_pm4py_log(log), w.petri_net, w.start_marking, w.end_marking)
sys.exit(0 if all(x['trace_is_fit'] for x in r) else 1)
'''
