PROPERTY = 'C02'
NEEDS = 'a block that works on a copy of the context with more than one part'
BREAKS = 'the copy of the context is only made for the first part'
EDITS = [('legacy/pipelines/pipelines.py', '''        current_input_copy = copy.copy(current_input)
        self.pipeline(current_input_copy)
''', '''        if len(self.pipeline.parts) == 1:
            self.pipeline(current_input)
        else:
            self.pipeline(copy.copy(current_input))

''')]
NEEDS = 'a block with a copy of the context that has a single part, which sets a value'
BREAKS = 'a block of a single part works on the context of the caller'
DEMO = r'''
from python.ficus.legacy.pipelines.pipelines import *
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult

class Put(InternalPipelinePart):
    def execute(self, c):
        return c.with_custom_data('x', 1)
r = Pipeline(WithInputCopy(Pipeline(Put())))(PipelinePartResult())
sys.exit(0 if not r.has_value('x') else 1)
'''
