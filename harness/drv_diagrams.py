"""Executions with drawing parts, nested pipelines included; the rectangles and legends of every figure are recorded.
Random numbers are scripted so that taken colours and black come up all the time."""
import contextlib, io, random
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from common import *
import figs
from python.ficus.legacy.pipelines.pipelines import *
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.analysis.analysis_parts import TracesDiversityDiagram, EventsPlacement, DrawPlacementOfEvents, \
    PrintEventLogInfoBeforeAndAfter
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawShortActivitiesDiagram, DrawFullActivitiesDiagram, DrawPatterns, \
    DrawSingleActivityPlacement
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.analysis.patterns.constants import undefined_activity

LEVELS = [0, 85, 170, 255]


class Script:
    """random colours out of few, black and recent ones preferred"""

    def __init__(self, rng):
        self.rng, self.buf, self.recent = rng, [], []

    def channel(self):
        if not self.buf:
            if self.rng.random() < .3:
                c = (0, 0, 0)
            elif self.recent and self.rng.random() < .5:
                c = self.rng.choice(self.recent)
            else:
                c = tuple(self.rng.choice(LEVELS) for _ in range(3))
            self.recent = (self.recent + [c])[-6:]
            self.buf = list(c)
        return self.buf.pop(0)

    @contextlib.contextmanager
    def on(self):
        old = random.randint, random.randrange

        def ri(a, b):
            return self.channel() if (a, b) == (0, 255) else old[0](a, b)

        def rr(a, b=None, c=1):
            return self.channel() if (a, b) in ((256, None), (0, 256)) and c == 1 else old[1](a, b, c)
        random.randint, random.randrange = ri, rr
        try:
            yield
        finally:
            random.randint, random.randrange = old


class Feed(InternalPipelinePart):
    def __init__(self, d, names, nodes):
        self.d, self.names, self.nodes = d, names, nodes

    def execute(self, ctx):
        d = self.d
        m = elog()
        lg = m.MyEventLog()
        i = 0
        for tr in d['log']:
            t = m.MyTrace()
            for c in tr:
                i += 1
                t.append(mk_event(self.names[c], i))
            lg.append(t)
        ctx.with_log(lg)
        if d['k'] in ('activities', 'single'):
            for row in d['marks']:
                for x in row:
                    self.node(x['n'])
            ctx.with_trace_activities([[ActivityInTraceInfo(self.node(x['n']), x['s'], x['l']) for x in row] for row in d['marks']])
            if d['k'] == 'single':
                self.node(d['who'])
            ctx.with_activities(list(self.nodes.values()))
        if d['k'] == 'patterns':
            ctx.with_patterns([[SubArrayInEventLog(x['s'], x['l']) for x in row] for row in d['marks']])
        return ctx

    def node(self, n):
        if n not in self.nodes:
            # activities may consist of equal sets of events
            self.nodes[n] = ActivityNode(self.names[n], None, {1, 2} if len(self.nodes) % 3 else {len(self.nodes)}, lambda e: e[CN], 0)
        return self.nodes[n]


class Rec(InternalPipelinePart):
    def __init__(self, d, names, steps):
        self.d, self.names, self.steps = d, names, steps

    def execute(self, ctx):
        d = self.d
        back = {v: k for k, v in self.names.items()}

        def who(text):
            if text in back:
                return back[text]
            if text == undefined_activity:
                return 'gap'
            if d['k'] == 'patterns':
                return 'pattern'
            raise Malformed('unknown name %r in a legend' % text)

        def f():
            open_ = figs.figures()
            if len(open_) != 1:
                raise Malformed('%d figures' % len(open_))
            ax = open_[0].axes[0]
            rects = [{'x': figs.whole(x), 'y': figs.whole(y), 'w': figs.whole(w), 'h': figs.whole(h), 'c': c} for x, y, w, h, c in figs.rects(ax)]
            return {'rects': [r for r in rects if r['w'] > 0], 'legend': [{'who': who(n), 'c': c} for n, c in figs.legend(ax)]}
        self.steps.append(dict(d, obs=obs(f)))
        plt.close('all')
        return ctx


def part(d, names):
    kw = dict(plot_legend=d['legend'], height_scale=d['hs'], width_scale=d['ws'], title=d.get('title'))
    if d['k'] == 'classes':
        return TracesDiversityDiagram(**kw)
    if d['k'] == 'placement':
        sel = {names[c] for c in d['sel']}
        if d['ws'] == 1 and d['hs'] % 2:
            del kw['width_scale']
            return EventsPlacement(sel, **kw)
        return DrawPlacementOfEvents(lambda n: n in sel, **kw)
    if d['k'] == 'activities':
        return (DrawShortActivitiesDiagram if d['short'] else DrawFullActivitiesDiagram)(**kw)
    if d['k'] == 'patterns':
        return DrawPatterns(d['short'], **kw)
    return DrawSingleActivityPlacement(lambda acts: [a for a in acts if a.name == names[d['who']]][0], use_different_colors=d['diff'], **kw)


def pipeline(items, names, nodes, steps, at):
    parts = []
    for it in items:
        k = it['k']
        if 'b' in it:
            sub = Pipeline(*pipeline(it['b'], names, nodes, steps, at))
            parts.append({'copy': lambda: WithInputCopy(sub), 'par': lambda: ParallelPipeline(sub), 'if': lambda: IfPipeline(lambda _: True, sub),
                          'info': lambda: PrintEventLogInfoBeforeAndAfter('x', sub),
                          'temp': lambda: WithTempInput(lambda c: c, lambda c, r: r, sub)}[k]())
        else:
            parts += [Feed(it, names, nodes), Mark(it, at), part(it, names), Rec(it, names, steps)]
    return parts


class Mark(InternalPipelinePart):
    """remembers what is being drawn, so that a failure is attributed to it"""

    def __init__(self, d, at):
        self.d, self.at = d, at

    def execute(self, ctx):
        self.at[:] = [self.d]
        return ctx


def run(case):
    steps, at = [], []
    names = case['names']
    plt.close('all')
    script = Script(random.Random(case['t']))
    p = Pipeline(UseExistingLog(), *pipeline(case['tree'], names, {}, steps, at))
    start = elog().MyEventLog()

    def f():
        with script.on(), contextlib.redirect_stdout(io.StringIO()):
            p(start)
        return {}
    for _ in range(case['times']):
        n = len(steps)
        e = obs(f, 60)
        if e['err']:
            steps.append(dict((at or [{'k': 'classes'}])[0], obs=e))
            break
        if case['times'] > 1:
            for s in steps[n:]:
                s['run'] = _
    return {'t': case['t'], 'steps': steps}


run_driver(run)
