PROPERTY = 'C19'
NEEDS = 'an annotated net with an arc that was used zero times'
BREAKS = 'arcs with a count of zero are drawn without annotation'
EDITS = [('grpc_pipelines/context_values.py', '''        map[annotation.entityId] = str(annotation.count)
''', '''        if annotation.count:
            map[annotation.entityId] = str(annotation.count)
''')]
DEMO = r'''
from python.ficus.grpc_pipelines.context_values import *
a = GrpcCountAnnotation()
x = a.annotations.add()
x.entityId = 3
x.count = 0
sys.exit(0 if from_grpc_count_annotation(a) == {3: '0'} else 1)
'''
