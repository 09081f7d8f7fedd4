"""Backend messages of every kind are given to the real decoding functions and to the callbacks of the real parts;
decoded values, DOT sources, matplotlib figures and canvas calls are recorded."""
import contextlib, io, os, re, struct, tempfile
import xml.etree.ElementTree as ET
from common import *
import dot, figs
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import ipycanvas
import python.ficus.grpc_pipelines.context_values as cv
import python.ficus.grpc_pipelines.discovery_parts as dp
import python.ficus.grpc_pipelines.drawing_parts as drp
import python.ficus.grpc_pipelines.activities_parts as ap
import python.ficus.grpc_pipelines.constants as K
from python.ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *
from python.ficus.grpc_pipelines.models.pm_models_pb2 import *
from python.ficus.grpc_pipelines.models.util_pb2 import GrpcColor
from python.ficus.legacy.analysis.event_log_analysis import NComponents, DatasetVisualizationMethod

CANVAS = []


def _fill_rect(self, x, y, width, height=None):
    CANVAS.append(['rect', id(self), str(self.fill_style), x, y, width, width if height is None else height])


def _fill_text(self, text, x, y, max_width=None):
    CANVAS.append(['text', id(self), str(text), x, y])


ipycanvas.Canvas.fill_rect = _fill_rect
ipycanvas.Canvas.fill_text = _fill_text


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


class Tab:
    """token <-> concrete value"""

    def __init__(self, vals, what):
        self.vals, self.what = vals, what

    def __getitem__(self, i):
        return self.vals[i]

    def back(self, v):
        for i, x in enumerate(self.vals):
            if type(x) is type(v) and x == v:
                return i
        raise Malformed('unknown %s: %r' % (self.what, v))


def tabs(s):
    return (Tab(s['texts'], 'text'), Tab([None] + s['ids'], 'identifier'))


# -- Petri nets
def net_msg(n, T, I):
    def arcs(xs):
        return [GrpcPetriNetArc(id=I[a['id']], placeId=I[a['place']], tokens_count=a['tok']) for a in xs]

    def mark(m):
        return GrpcPetriNetMarking(markings=[GrpcPetriNetSinglePlaceMarking(placeId=I[x['place']], tokensCount=x['tok']) for x in m['ms']])
    kw = {}
    if n['im']['has']:
        kw['initial_marking'] = mark(n['im'])
    if n['fm']['has']:
        kw['final_marking'] = mark(n['fm'])
    return GrpcPetriNet(places=[GrpcPetriNetPlace(id=I[p['id']], name=T[p['name']]) for p in n['places']],
                        transitions=[GrpcPetriNetTransition(id=I[t['id']], data=T[t['data']], incomingArcs=arcs(t['inc']), outgoingArcs=arcs(t['out']))
                                     for t in n['trans']], **kw)


def net_dec(net, T, I):
    for d in (net.places, net.transitions):
        for key, x in d.items():
            if key != x.id:
                raise Malformed('%r is stored under %r' % (x.id, key))

    def mark(m):
        if m is None:
            return {'has': False, 'ms': []}
        return {'has': True, 'ms': [{'place': I.back(x.place_id), 'tok': as_int(x.tokens_count)} for x in m.markings]}

    def arcs(xs):
        return [{'id': I.back(a.id), 'place': I.back(a.place_id), 'tok': as_int(a.tokens_count)} for a in xs]
    return {'places': [{'id': I.back(p.id), 'name': T.back(p.name)} for p in net.places.values()],
            'trans': [{'id': I.back(t.id), 'data': T.back(t.data), 'inc': arcs(t.incoming_arcs), 'out': arcs(t.outgoing_arcs)}
                      for t in net.transitions.values()],
            'im': mark(net.initial_marking), 'fm': mark(net.final_marking)}


DOTS = ('&#9679;', '\u25cf', '&#x25cf;')


def source(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn()
    return dot.parse(buf.getvalue())


def net_pic(fn, T, I, label):
    nodes, edges, _ = source(fn)
    vs = []
    for n, a in nodes.items():
        text = dot.shown(a, n, n)
        raw = str(a.get('label', ''))
        shape = str(a.get('shape', 'ellipse'))
        marked = any(d in raw for d in DOTS)
        mark = 'none' if not marked else 'final' if shape == 'doublecircle' or str(a.get('peripheries')) == '2' else 'initial'
        kind = 'transition' if shape in ('box', 'rect', 'rectangle', 'square') else 'place' if 'circle' in shape else shape
        if not marked and text is None:
            raise Malformed('label of %s is markup: %r' % (n, raw))
        vs.append({'id': I.back(int(n)), 'kind': kind, 'mark': mark, 'text': T.back('' if marked else text)})
    es = [{'from': I.back(int(x)), 'to': I.back(int(y)), 'label': label(dot.shown(a, x + '->' + y, ''))} for x, y, a in edges]
    return vs, es


def cval(**kw):
    return GrpcContextValue(**kw)


def frac(vals):
    """floats of the case as they arrive, and back from the text that is shown"""
    fs = [f32(v) for v in vals]

    def back(s):
        if s == '':
            return -1
        for i, v in enumerate(fs):
            if float(s) == v:
                return i + 1
        raise Malformed('unknown number %r' % s)
    return fs, back


def counts(vals):
    def back(s):
        if s == '':
            return -1
        if s in [str(v) for v in vals]:
            return [str(v) for v in vals].index(s) + 1
        raise Malformed('unknown number %r' % s)
    return vals, back


def op_net(s):
    T, I = tabs(s)
    msg = net_msg(s['msg'], T, I)
    values = {K.const_petri_net: cval(petriNet=msg)}
    dec = net_dec(cv.from_grpc_petri_net(msg), T, I)
    kind = s['kind']
    kw = dict(show_places_names=s['show'], name='g', rankdir=s['rankdir'])
    annd = []
    label = {'': -1}.__getitem__
    if kind == 'none':
        part = dp.ViewPetriNet2(**kw)
    elif kind == 'given':
        vals, label = counts(s['vals'])
        part = dp.ViewPetriNet2(annotation={I[a['ent']]: str(vals[a['val'] - 1]) for a in s['ann']}, **kw)
        annd = s['ann']
    elif kind == 'count':
        vals, label = counts(s['vals'])
        am = GrpcCountAnnotation(annotations=[GrpcEntityCountAnnotation(entityId=I[a['ent']], count=vals[a['val'] - 1]) for a in s['ann']])
        values[K.const_petri_net_count_annotation] = cval(count_annotation=am)
        annd = [{'ent': I.back(e), 'val': label(v)} for e, v in cv.from_grpc_count_annotation(am).items()]
        part = dp.AnnotatePetriNetWithCount2(**kw)
    else:
        vals, label = frac(s['vals'])
        am = GrpcFrequenciesAnnotation(annotations=[GrpcEntityFrequencyAnnotation(entityId=I[a['ent']], frequency=vals[a['val'] - 1]) for a in s['ann']])
        key = K.const_petri_net_frequency_annotation if kind == 'freq' else K.const_petri_net_trace_frequency_annotation
        values[key] = cval(frequency_annotation=am)
        annd = [{'ent': I.back(e), 'val': label(v)} for e, v in cv.from_grpc_frequency_annotation(am).items()]
        part = (dp.AnnotatePetriNetWithFrequency2 if kind == 'freq' else dp.AnnotatePetriNetWithTraceFrequency2)(**kw)
    vs, es = net_pic(lambda: part.execute_callback(values), T, I, label)
    again = net_pic(lambda: part.execute_callback(values), T, I, label)
    return {'dec': dec, 'vs': vs, 'es': es, 'ann': annd, 'same': again == (vs, es)}


# -- graphs
def graph_msg(g, T, I):
    return GrpcGraph(nodes=[GrpcGraphNode(id=I[n['id']], data=T[n['data']]) for n in g['nodes']],
                     edges=[GrpcGraphEdge(from_node=I[e['from']], to_node=I[e['to']], data=T[e['data']]) for e in g['edges']])


def op_graph(s):
    T, I = tabs(s)
    msg = graph_msg(s['msg'], T, I)
    g = cv.from_grpc_graph(msg)
    dec = {'nodes': [{'id': I.back(n.id), 'data': T.back(n.data)} for n in g.nodes],
           'edges': [{'from': I.back(e.from_node), 'to': I.back(e.to_node), 'data': T.back(e.data)} for e in g.edges]}
    part = (dp.ViewGraph2 if s['kind'] == 'graph' else dp.ViewDirectlyFollowsGraph2)(rankdir=s['rankdir'])
    nodes, edges, _ = source(lambda: part.execute_callback({K.const_graph: cval(graph=msg)}))
    for n, a in nodes.items():
        if getattr(a.get('label'), 'html', False):
            raise Malformed('label of %s is markup: %r' % (n, str(a['label'])))
    vs = [{'id': I.back(int(n)), 'text': T.back(dot.shown(a, n, n))} for n, a in nodes.items()]
    es = [{'from': I.back(int(x)), 'to': I.back(int(y)), 'text': T.back(dot.shown(a, x + '->' + y, ''))} for x, y, a in edges]
    return {'dec': dec, 'vs': vs, 'es': es}


def op_svg(s):
    """the exported picture itself"""
    T, I = tabs(s)
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'x', 'g.svg')
        if s['kind'] == 'net':
            dp.ViewPetriNet2(show_places_names=s['show'], export_path=out).execute_callback({K.const_petri_net: cval(petriNet=net_msg(s['msg'], T, I))})
        else:
            dp.ViewGraph2(export_path=out).execute_callback({K.const_graph: cval(graph=graph_msg(s['msg'], T, I))})
        root = ET.parse(out).getroot()
    ns = '{http://www.w3.org/2000/svg}'
    vs, es = [], []
    for x in root.iter(ns + 'g'):
        if x.get('class') not in ('node', 'edge'):
            continue
        title = x.find(ns + 'title').text
        text = ''.join((t.text or '') for t in x.iter(ns + 'text')).replace('\xa0', ' ')
        if x.get('class') == 'edge':
            a, b = title.split('->')
            es.append({'from': I.back(int(a)), 'to': I.back(int(b)), 'text': T.back(text)})
            continue
        v = {'id': I.back(int(title))}
        if s['kind'] == 'net':
            rings = sum(1 for _ in x.iter(ns + 'ellipse'))
            mark = 'none' if text != '\u25cf' else 'final' if rings == 2 else 'initial'
            v.update(kind='place' if rings else 'transition', mark=mark, text=T.back('' if mark != 'none' else text))
        else:
            v['text'] = T.back(text)
        vs.append(v)
    if s['kind'] == 'net':
        es = [{'from': e['from'], 'to': e['to'], 'label': -1} for e in es]
    return {'vs': vs, 'es': es}


# -- coloured logs
def colour(c):
    return '#%02x%02x%02x' % tuple(c)


def half(x):
    y = 2 * float(x)
    r = round(y)
    if abs(y - r) > 1e-6:
        raise Malformed('coordinate %r' % x)
    return int(r)


def log_msg(log, T, C):
    return GrpcColorsEventLog(traces=[GrpcColorsTrace(event_colors=[
        GrpcColoredRectangle(color=GrpcColor(red=C[b['c']][0], green=C[b['c']][1], blue=C[b['c']][2]), name=T[b['name']], start_index=b['start'],
                             length=b['len']) for b in tr]) for tr in log])


def hexes(C):
    hs = [colour(c) for c in C]

    def back(h):
        h = {'white': '#ffffff', 'black': '#000000'}.get(str(h), str(h)).lower()
        if h not in hs:
            raise Malformed('unknown colour %r' % h)
        return hs.index(h)
    return back


def figure():
    figs = [plt.figure(n) for n in plt.get_fignums()]
    if len(figs) != 1:
        raise Malformed('%d open figures' % len(figs))
    return figs[0]


PLOTS = {'diversity': lambda kw: drp.TracesDiversityDiagram2(**kw), 'name': lambda kw: drp.DrawPlacementsOfEventByName2('A', **kw),
         'regex': lambda kw: drp.DrawPlacementOfEventsByRegex2('A.*', **kw), 'full': lambda kw: drp.DrawFullActivitiesDiagram2(**kw),
         'short': lambda kw: drp.DrawShortActivitiesDiagram2(**kw)}
CANV = {'diversity': lambda kw: drp.TracesDiversityDiagram2Canvas(**kw), 'name': lambda kw: drp.DrawPlacementsOfEventByName2Canvas('A', **kw),
        'regex': lambda kw: drp.DrawPlacementOfEventsByRegex2Canvas('A.*', **kw), 'full': lambda kw: drp.DrawFullActivitiesDiagram2Canvas(**kw),
        'short': lambda kw: drp.DrawShortActivitiesDiagram2Canvas(**kw)}


def rec(r, cb):
    return {'x': half(r[0]), 'y': half(r[1]), 'w': half(r[2]), 'h': half(r[3]), 'c': cb(r[4])}


def num(x):
    return x // 2 if x % 2 == 0 else x / 2


def op_colors(s):
    T, C = Tab(s['texts'], 'text'), s['cols']
    cb = hexes(C)
    msg = log_msg(s['msg'], T, C)
    lg = cv.from_grpc_colors_log(msg)
    dec = [[{'c': C.index([as_int(b.color.red), as_int(b.color.green), as_int(b.color.blue)]), 'start': as_int(b.start_pos), 'len': as_int(b.length),
             'name': T.back(b.name)} for b in tr] for tr in lg]
    values = {K.const_colors_event_log: cval(colors_log=msg)}
    ws, hs = num(s['scale'][0]), num(s['scale'][1])
    kw = dict(title=s['title'], plot_legend=s['legend'], width_scale=ws, height_scale=hs)
    if s['how'] == 'plot':
        plt.close('all')
        PLOTS[s['part']](kw).execute_callback(values)
        fig = figure()
        rects = [rec(r, cb) for r in figs.rects(fig.axes[0])]
        legend = [{'name': T.back(n), 'c': cb(c)} for n, c in figs.legend(fig.axes[0])]
        plt.close('all')
        return {'dec': dec, 'rects': rects, 'legend': legend}
    CANVAS.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        CANV[s['part']](kw).execute_callback(values)
    calls = list(CANVAS)
    if len({c[1] for c in calls}) > 1:
        raise Malformed('several canvases')
    rs = [c[2:] for c in calls if c[0] == 'rect']
    # what is painted first over everything is the background
    if rs and rs[0][1] == 0 and rs[0][2] == 0 and rs[0][0].lower() in ('white', '#ffffff'):
        rs = rs[1:]
    legend = []
    if s['legend']:
        # the legend is below the rows: an entry is a rectangle with its name to the right of it
        total = sum(len(t) for t in s['msg'])
        rs.sort(key=lambda r: r[2])
        rs, entries = rs[:total], rs[total:]
        for e in entries:
            row = [c for c in calls if c[0] == 'text' and c[2] in s['texts'] and c[3] >= e[1] + e[3] and e[2] <= c[4] <= e[2] + e[4]]
            if not row:
                raise Malformed('a legend rectangle without text')
            # the first text to the right of the rectangle
            legend.append({'name': T.back(min(row, key=lambda c: c[3])[2]), 'c': cb(e[0])})
    rects = [rec((r[1], r[2], r[3], r[4], r[0]), cb) for r in rs]
    return {'dec': dec, 'rects': rects, 'legend': legend}


# -- data sets
def ds_msg(d, T):
    return GrpcDataset(matrix=GrpcMatrix(rows=[GrpcMatixRow(values=[float(x) for x in r]) for r in d['rows']]),
                       columnsNames=[T[x] for x in d['cols']], rowNames=[T[x] for x in d['names']])


def whole(x):
    if float(x) != round(float(x)):
        raise Malformed('value %r' % x)
    return int(round(float(x)))


def ds_dec(df, T, skip=()):
    cols = [c for c in df.columns if c not in skip]
    return {'rows': [[whole(v) for v in r] for r in df[cols].values.tolist()], 'cols': [T.back(c) for c in cols], 'names': [T.back(i) for i in df.index.tolist()]}


def points(col, dim):
    if dim == 3:
        xs, ys, zs = col._offsets3d
        return [[float(a), float(b), float(c)] for a, b, c in zip(xs, ys, zs)]
    return [[float(a), float(b)] for a, b in col.get_offsets()]


def op_dataset(s):
    T = Tab(s['texts'], 'text')
    d = s['msg']
    msg = ds_msg(d, T)
    dim = len(d['cols'])
    kw = dict(n_components=NComponents(dim), visualization_method=DatasetVisualizationMethod.Pca)
    plt.close('all')
    if not s['labelled']:
        dec = ds_dec(cv.from_grpc_ficus_dataset(msg), T)
        ap.VisualizeTracesActivities2(**kw).execute_callback({K.const_traces_activities_dataset: cval(dataset=msg)})
        dec.update(labels=[], colors=[])
    else:
        lm = GrpcLabeledDataset(dataset=msg, labels=d['labels'], labelsColors=[GrpcColor(red=s['cols'][c][0], green=s['cols'][c][1], blue=s['cols'][c][2]) for c in d['colors']])
        df = cv.from_grpc_labeled_dataset(lm)
        dec = ds_dec(df, T, skip=(K.const_cluster_labels,))
        dec.update(labels=[as_int(x) for x in df[K.const_cluster_labels].tolist()], colors=d['colors'])
        key = s['part']
        import python.ficus.grpc_pipelines.grpc_pipelines as gp
        if key == 'traces':
            part, ck = ap.ClusterizeLogTracesDbscan(gp.Pipeline2(), **kw), K.const_labeled_log_traces_dataset
        else:
            part, ck = {'kmeans': ap.ClusterizeActivitiesFromTracesKMeans, 'grid': ap.ClusterizeActivitiesFromTracesKMeansGridSearch,
                        'dbscan': ap.ClusterizeActivitiesFromTracesDbscan}[key](**kw), K.const_labeled_traces_activities_dataset
        part.execute_callback({ck: cval(labeled_dataset=lm)})
    ax = figure().axes[0]
    cb = hexes(s['cols'])
    groups, pts = [], []
    for col in ax.collections:
        ps = points(col, dim)
        lab = col.get_label()
        if s['labelled']:
            m = re.fullmatch(r'CLUSTER_(-?\d+)', lab)
            if not m:
                raise Malformed('group %r' % lab)
            fcs = {matplotlib.colors.to_hex(f[:3]) for f in col.get_facecolor()}
            if len(fcs) != 1:
                raise Malformed('several colours in a group')
            groups.append({'label': int(m.group(1)), 'c': cb(fcs.pop()), 'n': len(ps)})
        else:
            groups.append({'label': 0, 'c': 0, 'n': len(ps)})
        pts += ps
    leg = ax.get_legend()
    legend = [] if leg is None else [t.get_text() for t in leg.get_texts()]
    legend = [int(x.rsplit('_', 1)[1]) for x in legend]

    def d2(a, b):
        v = sum((x - y) ** 2 for x, y in zip(a, b))
        if abs(v - round(v)) > 1e-3 * max(1, v):
            raise Malformed('distance %r' % v)
        return int(round(v))
    gaps = [[d2(a, b) for b in pts] for a in pts]
    plt.close('all')
    return {'dec': dec, 'groups': groups, 'gaps': gaps, 'legend': legend}


def op_names(s):
    T = Tab(s['texts'], 'text')
    lg = cv.from_grpc_names_log(GrpcNamesEventLogContextValue(log=GrpcNamesEventLog(traces=[GrpcNamesTrace(events=[T[x] for x in tr]) for tr in s['msg']])))
    return {'dec': [[T.back(x) for x in tr] for tr in lg]}


def op_info(s):
    e, c, t = s['msg']
    v = cv.from_grpc_event_log_info(GrpcEventLogInfo(events_count=e, event_classes_count=c, traces_count=t))
    return {'dec': [as_int(v.events_count), as_int(v.event_classes_count), as_int(v.traces_count)]}


OPS = {'net': op_net, 'graph': op_graph, 'svg': op_svg, 'colors': op_colors, 'dataset': op_dataset, 'names': op_names, 'info': op_info}


def run(case):
    steps = []
    for s in case['ops']:
        o = obs(lambda: OPS[s['op']](s), 40)
        # identifiers and numbers of 64 bits stay on this side
        steps.append({**{k: v for k, v in s.items() if k not in ('ids', 'vals', 'texts', 'cols', 'title')}, 'obs': o})
    return {'t': case['t'], 'steps': steps}


run_driver(run)
