import contextlib, importlib, inspect, io, re, struct
from concurrent import futures
from common import *
import grpc
import google.protobuf.empty_pb2 as empty
from python.ficus.grpc_pipelines.models import backend_service_pb2 as bs, backend_service_pb2_grpc as bsg
from python.ficus.grpc_pipelines.models import pipelines_and_context_pb2 as pc, util_pb2 as ut
from python.ficus.grpc_pipelines import grpc_pipelines as gp, context_values as cv, data_models as dm
from python.ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy
from python.ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode
from python.ficus.legacy.analysis.event_log_analysis import NComponents, DatasetVisualizationMethod

MODS = [importlib.import_module('python.ficus.grpc_pipelines.' + m) for m in
        ('grpc_pipelines', 'activities_parts', 'discovery_parts', 'drawing_parts', 'filtering_parts', 'mutation_parts',
         'patterns_parts', 'util_parts', 'xes_parts')]
ENUMS = {'PatternsDiscoveryStrategy': dm.PatternsDiscoveryStrategy, 'PatternsKindDto': dm.PatternsKind, 'AdjustingMode': AdjustingMode,
         'UndefActivityHandlingStrategyDto': UndefinedActivityHandlingStrategy, 'ActivityNarrowingKind': dm.NarrowActivityKind,
         'ActivityInTraceFilterKind': dm.ActivityFilterKind, 'ActivitiesLogsSourceDto': dm.ActivitiesLogsSource,
         'ActivityRepresentationSource': dm.ActivitiesRepresentationSource, 'FicusDistance': dm.Distance,
         'TracesRepresentationSource': dm.TracesRepresentationSource}
PIPE = {'DiscoverActivitiesUntilNoMore2': 'after_activities_extraction_pipeline', 'ExecuteWithEachActivityLog2': 'activity_log_pipeline',
        'ClusterizeLogTracesDbscan': 'after_clusterization_pipeline', 'PrintEventlogInfoBeforeAfter': 'inner_pipeline'}
# settings of the drawing, which the backend does not get
LOCAL = {'title': ['T', None], 'plot_legend': [False, True], 'height_scale': [3, 1], 'width_scale': [2, 1], 'show_visualization': [False, True],
         'fig_size': [(3, 4)], 'view_params': [(1, 2)], 'font_size': [9], 'n_components': [NComponents.Two], 'legend_cols': [5],
         'visualization_method': [DatasetVisualizationMethod.TSNE], 'show_places_names': [True], 'name': ['N'], 'background_color': ['red'],
         'engine': ['neato'], 'export_path': ['out/x.svg'], 'rankdir': ['TB'], 'annotation': [{1: 'x'}]}


def find(name):
    for m in MODS:
        if hasattr(m, name):
            return getattr(m, name)
    raise Malformed('no part ' + name)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


FLOATS = {}


def to_value(tok, ty):
    if tok == 'None':
        return None
    if ty == 'uint32':
        return int(tok)
    if ty == 'float':
        return float(tok)
    if ty == 'string':
        return tok
    if ty == 'bool':
        return tok == 'True'
    if ty == 'strings':
        return json.loads(tok)
    return ENUMS[ty][tok]


for tok in ('0.0', '0.25', '0.3', '-2.0', '0.5', '1.0', '0.1', '1e-05', '7.5', '-0.001'):
    FLOATS[f32(float(tok))] = tok


def value(v):
    k = v.WhichOneof('contextValue')
    if k == 'uint32':
        return 'uint32', str(v.uint32)
    if k == 'float':
        return 'float', FLOATS.get(v.float, repr(v.float))
    if k == 'string':
        return 'string', v.string
    if k == 'bool':
        return 'bool', str(v.bool)
    if k == 'strings':
        return 'strings', json.dumps(list(v.strings.strings), ensure_ascii=False)
    if k == 'enum':
        return v.enum.enumType, v.enum.value
    if k == 'names_log':
        return 'names_log', json.dumps([list(t.events) for t in v.names_log.log.traces], ensure_ascii=False)
    if k == 'hashes_log':
        return 'hashes_log', json.dumps([list(t.events) for t in v.hashes_log.log.traces])
    if k == 'event_log_info':
        i = v.event_log_info
        return 'event_log_info', json.dumps([i.events_count, i.event_classes_count, i.traces_count])
    if k == 'pipeline':
        return 'pipeline', json.dumps([p.defaultPart.name for p in v.pipeline.parts])
    return str(k), v.SerializeToString().hex()


def entries(pipeline, ids):
    res = []
    for p in pipeline.parts:
        kind = p.WhichOneof('part')
        e = {'op': '', 'keys': [], 'ps': [], 'who': 0, 'nested': False, 'sub': []}
        who = lambda u: ids.setdefault(u, len(ids) + 1) if u else 0
        if kind == 'defaultPart':
            e['mode'], part = 'do', p.defaultPart
        elif kind == 'simpleContextRequestPart':
            q = p.simpleContextRequestPart
            e.update(mode='get', keys=[q.key.name], who=who(q.frontendPartUuid.uuid))
            part = pc.GrpcPipelinePart()
        elif kind == 'complexContextRequestPart':
            q = p.complexContextRequestPart
            e.update(mode='doget', keys=[x.name for x in q.keys], who=who(q.frontendPartUuid.uuid))
            part = q.beforePipelinePart
        else:
            raise Malformed('entry of kind %s' % kind)
        e['op'] = part.name
        for kv in part.configuration.configurationParameters:
            if kv.value.WhichOneof('contextValue') == 'pipeline' and kv.key.name == 'pipeline' and not e['nested']:
                e.update(nested=True, sub=entries(kv.value.pipeline, ids))
            else:
                e['ps'].append([kv.key.name, *value(kv.value)])
        res.append(e)
    return res


class Service(bsg.GrpcBackendServiceServicer):
    got = []

    def ExecutePipeline(self, request, context):
        self.got.append(request)
        yield bs.GrpcPipelinePartExecutionResult(finalResult=bs.GrpcPipelineFinalResult(success=ut.GrpcGuid(guid='g')))

    def DropExecutionResult(self, request, context):
        return empty.Empty()


_addr = []


def addr():
    if not _addr:
        s = grpc.server(futures.ThreadPoolExecutor(max_workers=2))
        bsg.add_GrpcBackendServiceServicer_to_server(Service(), s)
        _addr.append('127.0.0.1:%d' % s.add_insecure_port('127.0.0.1:0'))
        _addr.append(s)
        s.start()
    return _addr[0]


JUNK = [5, None, 'part', gp.Pipeline2(), gp.PipelinePart2, [], object()]


def make(it, inst, rng):
    if it['c'] == 'junk':
        return rng.choice(JUNK)
    if it['id'] and it['id'] in inst:
        return inst[it['id']]
    cls = find(it['c'])
    kw = {a[0]: to_value(a[1], a[2]) for a in it['a']}
    if it['n']:
        kw[PIPE[it['c']]] = gp.Pipeline2(*[make(x, inst, rng) for x in it['b']])
    names = list(inspect.signature(cls.__init__).parameters)[1:]
    for n in names:
        if n in LOCAL and rng.random() < .3 and n not in kw:
            kw[n] = rng.choice(LOCAL[n])
        elif n == 'save_path' and n not in kw and rng.random() < .3:
            kw[n] = 'out/picture.png'
    # settings in the order of the constructor may be given without their names
    args = []
    if rng.random() < .3:
        for n in names:
            if n not in kw:
                break
            args.append(kw.pop(n))
    part = cls(*args, **kw)
    if it['id']:
        inst[it['id']] = part
    return part


def ctx_value(ty, tok):
    if ty in ENUMS:
        return cv.EnumContextValue(ty, tok)
    if ty == 'names_log':
        return cv.NamesLogContextValue(json.loads(tok))
    if ty == 'hashes_log':
        return cv.HashesLogContextValue(json.loads(tok))
    if ty == 'event_log_info':
        e, c, t = json.loads(tok)
        return cv.EventLogInfo(events_count=e, event_classes_count=c, traces_count=t)
    if ty == 'pipeline':
        return gp.PipelineContextValue(gp.Pipeline2(*[find(n + '2')() for n in json.loads(tok)]))
    return {'uint32': cv.Uint32ContextValue, 'float': cv.FloatContextValue, 'string': cv.StringContextValue, 'bool': cv.BoolContextValue,
            'strings': cv.StringsContextValue}[ty](to_value(tok, ty))


_words = []


def unknown(names):
    root = os.path.join(REPO, 'src', 'rust')
    if not os.path.isdir(root):
        return []
    if not _words:
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith('.rs'):
                    _words.append(set(re.findall(r'\w+', open(os.path.join(d, f), errors='replace').read())))
    words = set().union(*_words)
    return [n for n in names if n not in words]


def run(case):
    import random
    rng = random.Random(case['t'])
    inst = {}
    pipe, have = gp.Pipeline2(), 0
    ids = {}
    steps = []
    for s in case['ops']:
        if s['op'] == 'names':
            steps.append(dict(s, obs=obs(lambda: {'unknown': unknown(s['names'])})))
            continue

        sent = Service.got
        sent.clear()

        def f():
            nonlocal have
            new = s['tree'][have:]
            have = len(s['tree'])
            parts = [make(it, inst, rng) for it in new]
            if not pipe.parts:
                pipe.parts = gp.Pipeline2(*parts).parts
            else:
                pipe.parts.extend(parts)
            ctx = {k: ctx_value(ty, tok) for k, ty, tok in s['ctx']}
            ctx['backend'] = addr()
            with contextlib.redirect_stdout(io.StringIO()):
                pipe.execute(ctx)
            req = sent[0]
            return {'req': entries(req.pipeline, ids), 'ctx': [[kv.key.name, *value(kv.value)] for kv in req.initialContext],
                    'same': pipe.to_grpc_pipeline() == req.pipeline}
        o = obs(f)
        o['sent'] = len(sent)
        steps.append(dict(s, obs=o))
    return {'t': case['t'], 'steps': steps}


run_driver(run)
