PROPERTY = 'C18'
NEEDS = 'a pipeline whose inner pipeline holds a block with a pipeline of its own'
BREAKS = 'callbacks of parts nested two levels deep are registered, but the part is sent with a new id each time'
EDITS = [('grpc_pipelines/patterns_parts.py', '''        append_patterns_discovery_strategy(config, const_patterns_discovery_strategy, self.strategy)
        if self.class_extractor is not None:''', '''        append_patterns_discovery_strategy(config, const_patterns_discovery_strategy, self.strategy)
        if self.class_extractor:''')]
NEEDS = 'an empty regular expression as class extractor of a repeats part'
BREAKS = 'an empty class extractor is not sent, the backend uses the event names instead'
DEMO = r'''
from python.ficus.grpc_pipelines.patterns_parts import *
from python.ficus.grpc_pipelines.data_models import PatternsDiscoveryStrategy
p = FindMaximalRepeats2(PatternsDiscoveryStrategy.FromAllTraces, '').to_grpc_part()
keys = [x.key.name for x in p.defaultPart.configuration.configurationParameters]
sys.exit(0 if len(keys) == 2 else 1)
'''
