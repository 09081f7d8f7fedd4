PROPERTY = 'C17'
NEEDS = 'a backend that reports the results of one part twice'
BREAKS = 'only the first result of a part is delivered'
EDITS = [('grpc_pipelines/grpc_pipelines.py', 'part = uuid_to_pipeline_with_callback[issued_part_uuid]', 'part = uuid_to_pipeline_with_callback.pop(issued_part_uuid)')]
DEMO = open(__file__.replace('s25-shared-uuid', 's17-values-stay') if '__file__' in globals() else 'tools/seeds/s17-values-stay.py').read().split("DEMO = r'''")[1].split("'''")[0].replace("((a, 'x'), (b, 'y'))", "((a, 'x'), (a, 'y'))")
