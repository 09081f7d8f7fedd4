PROPERTY = 'C17'
NEEDS = 'a result of a part that lacks a value which an earlier result of a part had'
BREAKS = 'a callback also receives values of results that were delivered before'
EDITS = [('grpc_pipelines/grpc_pipelines.py', '''            last_result = None

            for part_result''', '''            last_result = None
            map = dict()

            for part_result'''), ('grpc_pipelines/grpc_pipelines.py', '''                        map = dict()
                        for context_value''', '''                        for context_value''')]
DEMO = r'''
import grpc
from concurrent import futures
from python.ficus.grpc_pipelines.grpc_pipelines import *
from python.ficus.grpc_pipelines.models.backend_service_pb2 import *
from python.ficus.grpc_pipelines.models.backend_service_pb2_grpc import *
from google.protobuf.empty_pb2 import Empty

got = []

class Part(PipelinePart2WithCallback):
    def to_grpc_part(self):
        return GrpcPipelinePartBase(simpleContextRequestPart=GrpcSimpleContextRequestPipelinePart(
            frontendPartUuid=GrpcUuid(uuid=str(self.uuid)), key=GrpcContextKey(name='k')))
    def execute_callback(self, values):
        got.append(sorted(values))

a, b = Part(), Part()

class Service(GrpcBackendServiceServicer):
    def ExecutePipeline(self, request, context):
        for part, key in ((a, 'x'), (b, 'y')):
            r = GrpcPipelinePartExecutionResult()
            r.pipelinePartResult.uuid.uuid = str(part.uuid)
            v = r.pipelinePartResult.contextValues.add()
            v.key_name = key
            v.value.string = 's'
            yield r
        r = GrpcPipelinePartExecutionResult()
        r.finalResult.success.guid = 'g'
        yield r
    def DropExecutionResult(self, request, context):
        return GrpcPipelinePartExecutionResult() if False else Empty()

server = grpc.server(futures.ThreadPoolExecutor(2))
add_GrpcBackendServiceServicer_to_server(Service(), server)
port = server.add_insecure_port('127.0.0.1:0')
server.start()
try:
    Pipeline2(a, b).execute({'backend': '127.0.0.1:%d' % port})
except Exception as e:
    print(e)
server.stop(None)
sys.exit(0 if got == [['x'], ['y']] else 1)
'''
