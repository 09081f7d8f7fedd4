"""Class trees of logs and graphs of forests, built by the parts and functions of the implementation; the DOT sources
are read back."""
import os, random, tempfile
from common import *
import dot
from python.ficus.legacy.pipelines.pipelines import *
from python.ficus.legacy.pipelines.contexts import accessors as A
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from python.ficus.legacy.pipelines.analysis.high_level import DiscoverActivitiesForSeveralLevels
from python.ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode
from python.ficus.legacy.analysis.patterns.patterns_graphs import build_graph, draw_activity_graph, draw_event_class_tree
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode, EventClassNode

ROOT = 'root'


class Feed(InternalPipelinePart):
    def __init__(self, fn):
        self.fn = fn

    def execute(self, ctx):
        self.fn(ctx)
        return ctx


def source(g):
    return g if isinstance(g, str) else g.source


def graph_of(src, back):
    """vertices and edges by abstract name"""
    nodes, edges, _ = dot.parse(source(src))
    for n, a in nodes.items():
        if dot.shown(a, n, n) is None:
            raise Malformed('label of %r' % n)
    return {'vs': [back(n) for n in nodes], 'es': [[back(a), back(b)] for a, b, _ in edges]}


def nodes_of(s, names, kind):
    made = []
    for i, n in enumerate(s['nodes']):
        nm = names[n['name']]
        made.append(EventClassNode(nm) if kind == 'class' else ActivityNode(nm, None, {i}, lambda e: e[CN], n['level']))
    for i, n in enumerate(s['nodes']):
        made[i].child_nodes.extend(made[c - 1] for c in n['kids'])
    return [made[i - 1] for i in s['tops']]


def backer(names):
    inv = {v: k for k, v in names.items()}
    inv[ROOT] = ROOT

    def back(n):
        if n not in inv:
            raise Malformed('unknown vertex %r' % n)
        return inv[n]
    return back


def do_tree(s, names, ctx):
    m = elog()
    log = m.MyEventLog()
    i = 0
    for tr in s['log']:
        t = m.MyTrace()
        for c in tr:
            i += 1
            t.append(mk_event(names[c], i))
        log.append(t)
    before = [[(e[CN], e['id']) for e in tr] for tr in log]
    back = backer(names)
    exts = [(lambda n, x=x: names[x[back(n)]]) for x in s['exts']]

    def f():
        r = Pipeline(UseExistingLog(), BuildEventClassTree(exts))(log)
        budget = [3000]

        def tr(n):
            budget[0] -= 1
            if budget[0] < 0:
                raise Malformed('tree does not end')
            return {'name': back(n.name), 'kids': [tr(k) for k in n.child_nodes]}
        ctx['tree'] = A.event_class_tree(r)
        return {'trees': [tr(n) for n in A.event_class_tree(r)],
                'same': [[(e[CN], e['id']) for e in tr] for tr in log] == before}
    del s['log']
    return f


def do_graph(s, names, ctx):
    how = s['how']
    back = backer(names)
    root = s['root']

    def f():
        if how == 'class':
            r = Pipeline(UseExistingLog(), Feed(lambda c: c.with_event_class_tree(nodes_of(s, names, 'class'))),
                         BuildEventClassGraph('Event classes', root))(elog().MyEventLog())
            return graph_of(A.graph(r), back)
        if how == 'activity':
            r = Pipeline(UseExistingLog(), Feed(lambda c: c.with_activities(nodes_of(s, names, 'activity'))),
                         BuildActivityGraph(s['level'], 'Activities', root))(elog().MyEventLog())
            return graph_of(A.graph(r), back)
        if how == 'creator':
            plain = {k: 'v%d' % i for i, k in enumerate(sorted(names))}
            inv = {v: k for k, v in names.items()}
            g = build_graph(nodes_of(s, names, 'class'), 'x', root, lambda n: plain[inv[n.name]])
            return graph_of(g, backer(plain))
        got = []
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'g')
            if how == 'draw-activity':
                joined = {k: '\n'.join(v.split('::')) for k, v in names.items()}
                draw_activity_graph(nodes_of(s, names, 'activity'), p, False, root, got.append)
                return graph_of(got[0], backer(joined))
            if how == 'draw-class':
                draw_event_class_tree(nodes_of(s, names, 'class'), p, root, got.append)
                return graph_of(got[0], back)
            r = Pipeline(UseExistingLog(), Feed(lambda c: c.with_event_class_tree(nodes_of(s, names, 'class'))),
                         DrawEventClassTree(root, p, got.append))(elog().MyEventLog())
            return graph_of(got[0], back)
    return f


def do_levels(s, names, ctx):
    def f():
        with tempfile.TemporaryDirectory() as d:
            at, got = [], []
            Pipeline(UseExistingLog(), Feed(lambda c: c.with_activities(nodes_of(s, names, 'activity'))),
                     DrawActivitiesGraphByEventClassLevels(os.path.join(d, 'g.png'), add_root_node=s['root'], graph_attributes_setter=got.append,
                                                           save_path_mutator=lambda p, l: at.append(l) or '%s_%d' % (p, l))
                     )(elog().MyEventLog())
            if len(at) != len(got):
                raise Malformed('%d paths for %d graphs' % (len(at), len(got)))
            return {'graphs': [dict(graph_of(g, backer(names)), level=as_int(l)) for l, g in zip(at, got)]}
    return f


def do_text(s, names, ctx):
    def f():
        texts = []
        for x in s['forests']:
            r = Pipeline(UseExistingLog(), Feed(lambda c: c.with_event_class_tree(nodes_of(x, names, 'class'))),
                         BuildEventClassGraph('Event classes', s['root']), SerializeGraph())(elog().MyEventLog())
            t = A.serialized_graph(r)
            if not isinstance(t, str):
                raise Malformed('not a text: %r' % (t,))
            texts.append(t)
        tab = {t: i for i, t in enumerate(dict.fromkeys(texts))}
        return {'texts': [tab[t] for t in texts]}
    return f


def discovered(s, ctx):
    """activities of a log at several levels -> forest as found"""
    m = elog()
    log = m.MyEventLog()
    i = 0
    for tr in s['log']:
        t = m.MyTrace()
        for c in tr:
            i += 1
            t.append(mk_event(c, i))
        log.append(t)

    def first(e):
        return e[CN].split('.')[0]

    def whole(e):
        return e[CN]
    r = Pipeline(UseExistingLog(), DiscoverActivitiesForSeveralLevels([whole, first],
                                                                      discovering_strategy=ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace,
                                                                      adjusting_mode=AdjustingMode.FromUnattachedSubTraces))(log)
    tops = list(A.activities(r))
    order, seen = [], {}

    def walk(n):
        if id(n) not in seen:
            seen[id(n)] = None
            for k in n.child_nodes:
                walk(k)
            order.append(n)
            seen[id(n)] = len(order)
    for n in tops:
        walk(n)
    abst = {}
    for n in order:
        abst.setdefault(n.name, 'n%d' % (len(abst) + 1))
    nodes = [{'name': abst[n.name], 'level': as_int(n.activity_level), 'kids': [seen[id(k)] for k in n.child_nodes]} for n in order]
    return {'nodes': nodes, 'tops': [seen[id(n)] for n in tops]}, {v: k for k, v in abst.items()}, r


def do_found(case, s):
    steps = []
    v, e = guarded(lambda: discovered(s, None), 60)
    if e:
        return [dict(op='levels', nodes=[], tops=[], root=False, obs={'err': e})]
    forest, names, r = v
    for level in sorted({forest['nodes'][n - 1]['level'] for n in forest['tops']}) + [7]:
        def f():
            g = Pipeline(BuildActivityGraph(level, 'x', s['root']))(r)
            return graph_of(A.graph(g), backer(names))
        steps.append(dict(forest, op='level', level=level, root=s['root'], obs=obs(f)))
    return steps


def run(case):
    steps = []
    names = case['names']
    for s in case['steps']:
        if s['op'] == 'found':
            steps += do_found(case, s)
            continue
        f = {'tree': do_tree, 'graph': do_graph, 'level': do_graph, 'levels': do_levels, 'text': do_text}[s['op']](s, names, {})
        steps.append(dict(s, obs=obs(f, 40)))
    return {'t': case['t'], 'steps': steps}


run_driver(run)
