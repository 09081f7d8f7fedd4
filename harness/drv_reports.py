"""Reports: what is printed, saved and plotted for a context; afterwards the context as it is."""
import contextlib, io, math, os, shutil, tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from common import *
import figs
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.analysis.analysis_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from python.ficus.legacy.pipelines.filtering.filter_parts import *
from python.ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents
from python.ficus.legacy.analysis import event_log_analysis as A
from python.ficus.legacy.analysis.event_log_analysis_entropy import *
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo
from python.ficus.legacy.analysis.patterns.util import get_activities_for_level, select_traces_activities_for_activity_level
from python.ficus.legacy.filtering.event_log_filters import *

FAKE = {-1: 'FAKE_START', -2: 'FAKE_END'}
UE = 'UnderlyingEvents'
ACTS = ['a::b', 'act (1)', 'x = y', 'Activity_0', 'a', 'ß, 中']


class Ctx:
    def __init__(self, case):
        self.names = Names(case['scheme'])
        self.log = elog().MyEventLog()
        self.last = 0
        for tr in case['log']:
            t = elog().MyTrace()
            for e in tr:
                t.append(self.event(e))
            self.log.append(t)
        a = case['acts']
        self.nodes = [ActivityNode(ACTS[n], None, {i}, lambda e: e[CN], lv) for i, (n, lv) in enumerate(zip(a['name'], a['level']))]
        self.roots = list(range(len(self.nodes)))
        for i, ks in enumerate(a['kids']):
            for k in ks:
                self.nodes[i].child_nodes.append(self.nodes[k - 1])
                if k - 1 in self.roots:
                    self.roots.remove(k - 1)
        self.inst = [[ActivityInTraceInfo(self.nodes[n - 1], s, l) for n, s, l in t] for t in case['inst']]
        self.ctx = PipelinePartResult().with_log(self.log)
        self.ctx.with_activities([self.nodes[i] for i in self.roots])
        self.ctx.with_trace_activities(self.inst)
        self.uname = {n.unique_name(): i + 1 for i, n in enumerate(self.nodes)}

    def event(self, e):
        self.last += 1
        if isinstance(e, int):
            return mk_event(self.names.n(e), self.last)
        return mk_event(self.names.n(e[0]), self.last, {UE: [self.event(x) for x in e[1]]})

    def ev(self, e):
        return [self.names.c(e[CN]), as_int(e['id']), [self.ev(x) for x in e[UE]] if UE in e else []]

    def enc(self, log):
        return [[self.ev(e) for e in t] for t in log]

    def cls(self, n):
        back = {v: k for k, v in FAKE.items()}
        return back[n] if n in back else self.names.c(n)

    def node(self, n):
        return self.nodes.index(n) + 1

    def state(self):
        c = self.ctx
        return {'log': self.enc(accessors.log(c)), 'L': [self.node(n) for n in accessors.activities(c)],
                'inst': [[[self.node(i.node), as_int(i.start_pos), as_int(i.length)] for i in t] for t in accessors.traces_activities(c)]}

    def table(self):
        return [{'name': ACTS.index(n.name), 'uname': self.uname[n.unique_name()], 'level': as_int(n.activity_level),
                 'kids': [self.node(k) for k in n.child_nodes]} for n in self.nodes]


def act(s):
    if s not in ACTS:
        raise Malformed('activity %r' % s)
    return ACTS.index(s)


def numbers(text):
    """the numbers after the last colon of each line that has one"""
    out = []
    for l in text.splitlines():
        if ': ' in l:
            try:
                out.append(int(l.rsplit(': ', 1)[1]))
            except ValueError:
                raise Malformed('line %r' % l)
    return out


def fx(x):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Malformed('not a number')
    return int(round(x * 10**6))


def steps_of(ax):
    """heights of the bars over 1..2, 2..3, ...: of a filled step polygon or of rectangles"""
    def height(x):
        best = 0.0
        for p in ax.patches:
            vs = p.get_patch_transform().transform_path(p.get_path()).vertices
            xs = [v[0] for v in vs]
            if not (min(xs) < x < max(xs)):
                continue
            for a, b in zip(vs, list(vs[1:]) + [vs[0]]):
                if min(a[0], b[0]) <= x <= max(a[0], b[0]) and abs(a[1] - b[1]) < 1e-9:
                    best = max(best, float(a[1]))
        return best
    hi = max([v[0] for p in ax.patches for v in p.get_patch_transform().transform_path(p.get_path()).vertices], default=1)
    if hi != round(hi):
        raise Malformed('bars end at %r' % hi)
    return [figs.whole(height(i + 0.5)) for i in range(1, int(round(hi)))]


def run_op(w, s, tmp):
    op = s['op']
    out = io.StringIO()
    path = os.path.join(tmp, 'out.txt')
    plt.close('all')

    def go(part):
        with contextlib.redirect_stdout(out):
            r = Pipeline(part)(w.ctx)
        return r

    def saved():
        with open(path) as f:
            return f.read()

    if op == 'names':
        go(SaveAllEventNames(path))
        t = saved()
        return {'rep': [w.names.c(x) for x in t.split('\n\n')] if t else []}
    if op == 'info':
        go(PrintEventLogInfo())
        return {'rep': numbers(out.getvalue())}
    if op == 'around':
        inner = Pipeline(SubstituteUnderlyingEvents() if s['inner'] == 'expand' else RemoveClass(w.names.n(s['c'])))
        w.ctx = go(PrintEventLogInfoBeforeAndAfter('operation', inner))
        ns = numbers(out.getvalue())
        return {'rep': [ns[:3], ns[3:]]}
    if op == 'dfg':
        sel = {FAKE.get(c) or w.names.n(c) for c in s['sel']}
        go(PrintDFG(lambda n: n in sel))
        rep, cur = [], None
        for l in out.getvalue().splitlines():
            if l.startswith('Followers of '):
                cur = w.cls(l[len('Followers of '):].rsplit(':', 1)[0])
            elif l.strip():
                n, k = l.rsplit(': ', 1)
                rep.append([cur, w.cls(n), int(k)])
        return {'rep': rep}
    if op == 'acts':
        go(PrintActivities(s['print']))
        ls = [l for l in out.getvalue().splitlines() if l.strip()]
        return {'rep': [act(l) for l in ls[1:]], 'printed': bool(ls)}
    if op == 'hashes':
        go(PrintActivitiesNamesToHashes())
        ls = [l.split(' = ', 1) for l in out.getvalue().splitlines() if l.strip()]
        hs = {}
        for h, n in ls:
            hs.setdefault(n, set()).add(int(h))
        return {'rep': [act(n) for h, n in ls], 'one': all(len(x) == 1 for x in hs.values())}
    if op == 'saveacts':
        go(SaveAllActivitiesNames(path))
        rep = []
        for l in saved().splitlines():
            if l.startswith('ACTIVITIES LEVEL '):
                rep.append([int(l[len('ACTIVITIES LEVEL '):]), []])
            elif l.strip() and set(l) != {'='}:
                rep[-1][1].append(act(l))
        return {'rep': rep}
    if op == 'saveinst':
        go(SaveAllActivitiesInstancesNames(path if s['str'] else (lambda: path)))
        rep = []
        for l in saved().splitlines():
            u, n = l.split('=', 1)
            rep.append([w.uname[u], act(n)])
        return {'rep': rep}
    if op == 'indices':
        go(WriteActivitiesInstancesIndices(path))
        rep = []
        for l in saved().splitlines():
            if l.startswith('Trace '):
                if int(l[6:]) != len(rep):
                    raise Malformed('trace number %r' % l)
                rep.append([])
            elif l.strip():
                u, a, b = l.strip('()').split(', ')
                rep[-1].append([w.uname[u], int(a), int(b)])
        return {'rep': rep}
    if op == 'count':
        go(PrintNumberOfUnderlyingEvents())
        return {'rep': numbers(out.getvalue())}
    if op == 'found':
        go(PrintFoundActivitiesCount())
        return {'rep': [int(x) for x in out.getvalue().split() if x.isdigit()]}
    if op == 'level':
        rep = [w.node(n) for n in get_activities_for_level(accessors.activities(w.ctx), s['level'])]
        ins = select_traces_activities_for_activity_level(accessors.traces_activities(w.ctx), s['level'])
        return {'rep': rep, 'ins': [[[w.node(i.node), as_int(i.start_pos), as_int(i.length)] for i in t] for t in ins]}
    if op == 'hist':
        p = os.path.join(tmp, 'h.png')
        if s['save']:
            go(TracesHistogram(p, 'title'))
            return {'rep': [], 'file': os.path.getsize(p) > 0, 'title': True}
        go(TracesHistogram(None, 'title'))
        f = [x for x in figs.figures() if x.axes and x.axes[0].patches] or figs.figures()
        if len(f) != 1:
            raise Malformed('%d figures' % len(f))
        return {'rep': steps_of(f[0].axes[0]), 'file': True, 'title': f[0]._suptitle is not None and f[0]._suptitle.get_text() == 'title'}
    if op == 'hists':
        logs = [mk_log(l, w.names) for l in s['logs']]
        ns = ['/x/log%d.v.xes' % i for i in range(len(logs))]
        A.plot_logs_traces_histograms(logs, ns, title='all')
        f = figs.figures()
        if len(f) != 1:
            raise Malformed('%d figures' % len(f))
        rep = []
        for ax in f[0].axes:
            if ax.get_title() or ax.patches:
                rep.append([ns.index('/x/%s.xes' % ax.get_title()) + 1, steps_of(ax)])
        return {'rep': rep}
    if op == 'entropy':
        go(DrawDefaultEntropyHistogram(None, 'title'))
        ent = calculate_default_entropies(accessors.log(w.ctx))
        df = create_entropies_df(accessors.log(w.ctx))
        ax = figs.figures()[0].axes[0]
        bars = [[figs.whole(r[0]), fx(r[1]), figs.whole(r[2]), fx(r[3]), r[4]] for r in figs.rects(ax)]
        leg = []
        cols = {}
        for txt, col in figs.legend(ax):
            n, v = txt.rsplit(' ', 1)
            cols[col] = w.names.c(n)
            leg.append([w.names.c(n), fx(v)])
        for b in bars:
            b[4] = cols.get(b[4], -1)
        return {'rep': [[b[4], b[0], b[2], b[1], b[3]] for b in bars], 'legend': leg, 'ent': [[w.names.c(k), fx(v)] for k, v in ent.items()],
                'df': [[w.names.c(k), fx(v)] for k, v in zip(df.index, df['Entropy'])]}
    if op == 'pos':
        go(DrawPosEntropyHistogram())
        ax = figs.figures()[0].axes[0]
        return {'rep': sum(figs.whole(r[3]) for r in figs.rects(ax))}
    if op == 'tillend':
        mk = TillEndFilteringMetricKind.AfterBeforeDelta if s['delta'] else TillEndFilteringMetricKind.BeforeOnly
        go((DrawPosEntropyDirectTillEndFilteringDiagram if s['direct'] else DrawPosEntropyIndirectTillEndFilteringDiagram)(mk))
        fn = filter_events_pos_entropy_direct_till_end if s['direct'] else filter_events_pos_entropy_indirect_till_end
        want = [fx(x[1]) for x in fn(accessors.log(w.ctx), metric_kind=mk, untouchable_event_func=default_untouchable_func)]
        ax = figs.figures()[0].axes[0]
        return {'rep': [fx(y) for y in ax.lines[0].get_ydata()], 'xs': [figs.whole(x) for x in ax.lines[0].get_xdata()], 'want': want}
    if op == 'scatter':
        import numpy as np
        import pandas as pd
        n = A.NComponents(s['dim'])
        df = pd.DataFrame({'f': [float(i) for i in range(len(s['pts']))], 'label': s['labels']})
        cols = {k: A.Color(20 * k, 255 - k, 7) for k in s['known']}
        A.draw_pca_results(df, np.array([[float(x) for x in p[:s['dim']]] for p in s['pts']]), n, cols, (5, 5), (30, 40), 10, None,
                           'label' if s['lab'] else None, 2)
        ax = figs.figures()[0].axes[0]
        rep = []
        for c in ax.collections:
            if s['dim'] == 3:
                xs, ys, zs = c._offsets3d
                pts = list(zip(xs, ys, zs))
            else:
                pts = [tuple(p) for p in c.get_offsets()]
            lab = c.get_label()
            k = int(lab[8:]) if lab.startswith('CLUSTER_') else -1
            col = matplotlib.colors.to_hex(c.get_facecolor()[0])
            rep.append([k, [[figs.whole(float(x)) for x in p] for p in pts],
                        1 if k in cols and col == cols[k].to_hex().lower() else 0 if col == '#ffffff' else 2])
        return {'rep': rep}
    raise ValueError(op)


class RemoveClass(InternalPipelinePart):
    def __init__(self, name):
        self.name = name

    def execute(self, ctx):
        new = elog().MyEventLog()
        for t in accessors.log(ctx):
            nt = elog().MyTrace()
            for e in t:
                if e[CN] != self.name:
                    nt.append(e)
            new.append(nt)
        return ctx.with_log(new)


def run(case):
    w = Ctx(case)
    first = w.state()
    steps = []
    tmp = tempfile.mkdtemp(prefix='rep_')
    try:
        for s in case['steps']:
            def one():
                r = run_op(w, s, tmp)
                r['after'] = w.state()
                return r
            o = obs(one)
            steps.append(dict(s, obs=o))
            if o['err']:
                break
    finally:
        shutil.rmtree(tmp)
        plt.close('all')
    return {'t': case['t'], 'first': first, 'N': w.table(), 'steps': steps}


if __name__ == '__main__':
    run_driver(run)
