import contextlib, io, re, threading
from concurrent import futures
from common import *
import grpc
from python.ficus.grpc_pipelines.models import backend_service_pb2 as bs, backend_service_pb2_grpc as bsg
from python.ficus.grpc_pipelines.models import pipelines_and_context_pb2 as pc, pm_models_pb2 as pm, util_pb2 as ut
from python.ficus.grpc_pipelines import grpc_pipelines as gp
from python.ficus.grpc_pipelines.grpc_pipelines import (Pipeline2, PipelinePart2, PipelinePart2WithCallback,
                                                        PrintEventLogInfo2)
from python.ficus.grpc_pipelines.activities_parts import (DiscoverActivitiesUntilNoMore2, ExecuteWithEachActivityLog2,
                                                          ClusterizeLogTracesDbscan, PrintNumberOfUnderlyingEvents2,
                                                          SubstituteUnderlyingEvents2)
from python.ficus.grpc_pipelines.util_parts import PrintEventLog2, PrintEventlogInfoBeforeAfter, UseNamesEventLog2
from python.ficus.grpc_pipelines.context_values import StringContextValue, NamesLogContextValue, Uint32ContextValue
from python.ficus.grpc_pipelines.data_models import ActivitiesLogsSource

CV = pc.GrpcContextValue
KEYS = ['k%d' % i for i in range(6)] + ['colors_event_log', '', 'ключ']
BASE = 70000                      # message i of a script carries the number BASE + i


def waiting(pipeline):
    """identifiers of the parts of a received request that expect a result, in order"""
    res = []
    for p in pipeline.parts:
        kind = p.WhichOneof('part')
        part = p.defaultPart
        if kind == 'simpleContextRequestPart':
            res.append(p.simpleContextRequestPart.frontendPartUuid.uuid)
            continue
        if kind == 'complexContextRequestPart':
            res.append(p.complexContextRequestPart.frontendPartUuid.uuid)
            part = p.complexContextRequestPart.beforePipelinePart
        for kv in part.configuration.configurationParameters:
            if kv.value.WhichOneof('contextValue') == 'pipeline':
                res += waiting(kv.value.pipeline)
    return res


class World:
    def reset(self, script):
        self.script, self.eff, self.vals, self.reqs, self.requests, self.boom = script, [], [], [], [], None


W = World()


def value(n):
    """n-th value of a fixed family over the kinds of context values"""
    k = n % 7
    if k == 0:
        return CV(string='s%d' % n)
    if k == 1:
        return CV(uint32=n)
    if k == 2:
        return CV(names_log=pc.GrpcNamesEventLogContextValue(log=pm.GrpcNamesEventLog(
            traces=[pm.GrpcNamesTrace(events=['e%d' % n, 'b']), pm.GrpcNamesTrace()])))
    if k == 3:
        return CV(bool=False) if n == 3 else CV(float=n / 4)
    if k == 4:
        return CV(strings=pc.GrpcStrings(strings=['x', str(n)]))
    if k == 5:
        return CV(event_log_info=pc.GrpcEventLogInfo(events_count=n))
    return CV(graph=pc.GrpcGraph(nodes=[pc.GrpcGraphNode(id=n, data='')]))


VALS = {value(n).SerializeToString(deterministic=True): n for n in range(64)}


def message(i, m, uuids):
    R = bs.GrpcPipelinePartExecutionResult
    if m['k'] == 'part':
        u = uuids[m['u'] - 1] if 0 < m['u'] <= len(uuids) else '00000000-0000-4000-8000-%012d' % i
        if i % 5 == 4:
            u = u.upper()
        elif i % 7 == 3:
            u = u.replace('-', '')
        kvs = [bs.GrpcContextValueWithKeyName(key_name=KEYS[a], value=value(b)) for a, b in m['v']]
        n = BASE + i
        # the printing parts find their number here, whatever else is sent
        kvs += [bs.GrpcContextValueWithKeyName(key_name='underlying_events_count', value=CV(uint32=n)),
                bs.GrpcContextValueWithKeyName(key_name='event_log_info', value=CV(event_log_info=pc.GrpcEventLogInfo(events_count=n))),
                bs.GrpcContextValueWithKeyName(key_name='names_event_log', value=CV(names_log=pc.GrpcNamesEventLogContextValue(
                    log=pm.GrpcNamesEventLog(traces=[pm.GrpcNamesTrace(events=['n%d' % n])]))))]
        return R(pipelinePartResult=bs.GrpcPipelinePartResult(contextValues=kvs, uuid=ut.GrpcUuid(uuid=u)))
    if m['k'] == 'log':
        return R(logMessage=bs.GrpcPipelinePartLogMessage(message='L%d' % (BASE + i)))
    if m['k'] in ('ok', 'okx'):
        return R(finalResult=bs.GrpcPipelineFinalResult(success=ut.GrpcGuid(guid='guid-%d' % i)))
    return R(finalResult=bs.GrpcPipelineFinalResult(error='error %d' % i))


class Service(bsg.GrpcBackendServiceServicer):
    def __init__(self, name):
        self.name = name

    def ExecutePipeline(self, request, context):
        W.reqs.append(self.name)
        W.requests.append(request)
        uuids = waiting(request.pipeline)
        for i, m in enumerate(W.script, 1):
            if m['k'] == 'end':
                return
            if m['k'] == 'abort':
                context.abort(grpc.StatusCode.INTERNAL, 'broken')
            yield message(i, m, uuids)

    def DropExecutionResult(self, request, context):
        g = request.guid
        i = int(g[5:]) if g.startswith('guid-') and self.name == W.reqs[-1] else -1
        W.sync()
        W.eff.append(['drop', 0, i])
        W.vals.append([])
        if 0 < i <= len(W.script) and W.script[i - 1]['k'] == 'okx':
            context.abort(grpc.StatusCode.INTERNAL, 'cannot release')
        import google.protobuf.empty_pb2 as e
        return e.Empty()


class Boom(Exception):
    pass


class Recorder(PipelinePart2WithCallback):
    """a part of the user: asks for keys, notes what it gets"""

    def __init__(self, id):
        super().__init__()
        self.id = id

    def to_grpc_part(self):
        u = ut.GrpcUuid(uuid=str(self.uuid))
        if self.id % 2:
            return pc.GrpcPipelinePartBase(simpleContextRequestPart=pc.GrpcSimpleContextRequestPipelinePart(
                frontendPartUuid=u, key=pc.GrpcContextKey(name='k')))
        return pc.GrpcPipelinePartBase(complexContextRequestPart=pc.GrpcComplexContextRequestPipelinePart(
            frontendPartUuid=u, keys=[pc.GrpcContextKey(name='k')], beforePipelinePart=pc.GrpcPipelinePart(name='X')))

    def execute_callback(self, values):
        W.sync()
        i = values['underlying_events_count'].uint32 - BASE
        got = []
        for k, v in values.items():
            if k in ('underlying_events_count', 'event_log_info', 'names_event_log'):
                continue
            got.append([KEYS.index(k) if k in KEYS else -1, VALS.get(v.SerializeToString(deterministic=True), -1)])
        W.eff.append(['cb', self.id, i])
        W.vals.append(got)
        if 0 < i <= len(W.script) and W.script[i - 1].get('boom'):
            W.boom = Boom(str(i))
            raise W.boom


def build(items, parts):
    res = []
    for it in items:
        k = it['k']
        b = Pipeline2(*build(it['b'], parts)) if 'b' in it else None
        if k == 'cb':
            if it['id'] not in parts:
                parts[it['id']] = Recorder(it['id'])
            res.append(parts[it['id']])
        elif k == 'plain':
            res.append(UseNamesEventLog2() if len(res) % 2 else SubstituteUnderlyingEvents2())
        elif k == 'num':
            res.append(PrintNumberOfUnderlyingEvents2())
        elif k == 'info':
            res.append(PrintEventLogInfo2())
        elif k == 'names':
            res.append(PrintEventLog2())
        elif k == 'until':
            res.append(DiscoverActivitiesUntilNoMore2(after_activities_extraction_pipeline=b))
        elif k == 'each':
            res.append(ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, b))
        elif k == 'cluster':
            res.append(ClusterizeLogTracesDbscan(b, show_visualization=False))
        elif k == 'around':
            res.append(PrintEventlogInfoBeforeAfter(b))
        else:
            raise AssertionError(k)
    return res


class Out(io.StringIO):
    """printed lines become effects at the moment they are needed or at the end"""
    pass


PAT = re.compile(r"L(7\d{4})|n(7\d{4})|events_count=(7\d{4})|[Uu]nderlying events count\D*(7\d{4})")


def sync():
    text = W.out.getvalue()
    new, W.read = text[W.read:], len(text)
    for line in new.splitlines():
        for m in PAT.finditer(line):
            for g, kind in ((1, 'log'), (2, 'names'), (3, 'info'), (4, 'num')):
                if m.group(g):
                    W.eff.append([kind, 0, int(m.group(g)) - BASE])
                    W.vals.append([])


W.sync = sync
_servers = {}


def serve(name):
    if name not in _servers:
        s = grpc.server(futures.ThreadPoolExecutor(max_workers=4))
        bsg.add_GrpcBackendServiceServicer_to_server(Service(name), s)
        port = s.add_insecure_port('127.0.0.1:0')
        s.start()
        _servers[name] = (s, port)
    return '127.0.0.1:%d' % _servers[name][1]


_real = grpc.insecure_channel


def channel(target, *a, **kw):
    # the default address is served by a server of ours under another port
    if target.split(':')[-1] == '8080':
        target = serve('default')
    return _real(target, *a, **kw)


grpc.insecure_channel = channel


def context(s):
    ctx = {'path': StringContextValue('p%d' % s['c'])}
    if s['c'] % 2:
        ctx['names_event_log'] = NamesLogContextValue([['a', 'b'], [], ['c']])
    if s['addr'] == 'named':
        ctx['backend'] = serve('named')
    return ctx


def run(case):
    parts = {}
    pipeline = Pipeline2(*build(case['tree'], parts))
    before = {}
    steps = []
    for s in case['runs']:
        W.reset(s['script'])
        W.out, W.read = io.StringIO(), 0
        serve('default')

        def f():
            ctx = context(s)
            keep = dict(ctx)
            with contextlib.redirect_stdout(W.out):
                try:
                    r = pipeline.execute(ctx)
                    out, fin = 'other', 0
                    if r is not None and W.requests:
                        uuids = waiting(W.requests[0].pipeline)
                        for i, m in enumerate(s['script'], 1):
                            if m['k'] in ('ok', 'okx', 'fail') and r == message(i, m, uuids):
                                out, fin = 'final', i
                except Exception as e:
                    if not (e is W.boom or isinstance(e, grpc.RpcError) or any(m['k'] in ('end', 'abort', 'okx') or m.get('boom') for m in s['script'])):
                        raise
                    out, fin = 'raise', 0
            sync()
            key = (s['c'], s['addr'])
            req = W.requests[0] if W.requests else None
            same = before.setdefault(key, req) == req
            return {'reqs': W.reqs, 'waiting': len(waiting(req.pipeline)) if req else -1, 'eff': W.eff, 'vals': W.vals, 'out': out,
                    'fin': fin, 'ctx': ctx == keep and list(ctx) == list(keep), 'same': same}
        o = obs(f)
        steps.append(dict(s, tree=case['tree'], obs=o))
    return {'t': case['t'], 'steps': steps}


run_driver(run)
