PROPERTY = 'C30'
NEEDS = 'two different activities with the same name, both with instances'
BREAKS = 'the saved names of instances miss every activity whose name was written for another one'
EDITS = [('legacy/pipelines/analysis/patterns/patterns_parts.py', '''                    if node in visited:
                        continue

                    fout.write(f'{node.unique_name()}={node.name}\\n')
                    visited.add(node)
''', '''                    if node.name in visited:
                        continue

                    fout.write(f'{node.unique_name()}={node.name}\\n')
                    visited.add(node.name)
''')]
DEMO = r'''
import os, tempfile
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo, SubArrayWithTraceIndex
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import SaveAllActivitiesInstancesNames
a, b = [ActivityNode('x', SubArrayWithTraceIndex(0, 1, 0), {i}, lambda e: e['concept:name'], 0) for i in range(2)]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'out')
    inst = [[ActivityInTraceInfo(a, 0, 1), ActivityInTraceInfo(b, 1, 1)], [ActivityInTraceInfo(a, 0, 1)]]
    SaveAllActivitiesInstancesNames(p).execute(PipelinePartResult().with_trace_activities(inst))
    got = sorted(open(p).read().split())
sys.exit(0 if got == sorted([a.unique_name() + '=x', b.unique_name() + '=x']) else 1)
'''
