from common import *
from python.ficus.legacy.pipelines.pipelines import (Pipeline, PipelinePart, InternalPipelinePart, FirstPipelinePart,
                                                     ParallelPipeline, WithTempInput, WithInputCopy, IfPipeline)
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult

KEYS = ['log', 'custom b', 'm']
CALLS = []


class Boom(Exception):
    pass


ERRORS = [Boom, ValueError, KeyError, StopIteration, AttributeError, NotImplementedError, TypeError, IndexError, OSError]
RAISED = []


def vals(r):
    if r is None:
        return [-1, -1, -1]
    return [as_int(r.get_value_or_throw(k)) if r.has_value(k) else 0 for k in KEYS]


def base(v):
    return [max(0, x) for x in v]


def ctx(v):
    if v[0] == -1:
        return None
    r = PipelinePartResult()
    for k, x in zip(KEYS, v):
        if x:
            r.with_custom_data(k, x)
    return r


class Probe(InternalPipelinePart):
    def __init__(self, fx, ident):
        self.fx, self.id = fx, ident

    def execute(self, current_input):
        CALLS.append([self.id, vals(current_input)])
        if self.fx == 'fail':
            RAISED.append(ERRORS[self.id % len(ERRORS)]('boom'))
            raise RAISED[-1]
        if self.fx == 'nul':
            return None
        key = KEYS[0] if self.fx in ('seta', 'newa') else KEYS[1]
        if self.fx.startswith('set') and current_input is not None:
            return current_input.with_custom_data(key, self.id)
        return ctx(base(vals(current_input))).with_custom_data(key, self.id)


def item(it):
    k = it['k']
    if k == 'none':
        return None
    if k == 'bad':
        return [42, 'part', Pipeline(), lambda x: x, Probe, {}][it['v'] % 6]
    if k == 'p':
        return Probe(it['fx'], it['id'])
    if k == 'if':
        key = KEYS[0] if it['c'] == 'hasa' else KEYS[1]
        return IfPipeline(lambda r: r is not None and r.has_value(key), pipe(it['b']))
    if k == 'copy':
        return WithInputCopy(pipe(it['b']))
    if k == 'temp':
        def tr(r):
            return ctx([base(vals(r))[0], 0, 0])

        def mg(old, res):
            o, q = base(vals(old)), base(vals(res))
            return ctx([o[0], o[1], q[1]])
        return WithTempInput(tr, mg, pipe(it['b']))
    return ParallelPipeline(*[pipe(b) for b in it['bs']])


def pipe(items):
    return Pipeline(*[item(x) for x in items])


def execute(p, c0, how):
    del CALLS[:]
    try:
        if c0[0] == -1 and how:
            r = p()
        else:
            r = p(ctx(c0)) if how else p.execute(ctx(c0))
        return {'calls': list(CALLS), 'raised': False, 'ctx': vals(r)}
    except Exception as e:
        if not RAISED or e is not RAISED[-1]:
            raise
        return {'calls': list(CALLS), 'raised': True, 'ctx': [0, 0, 0]}


def run(case):
    state = {'p': Pipeline()}
    steps = []
    for s in case['ops']:
        op = s['op']
        if op == 'build':
            def f():
                state['p'] = pipe(s['items'])
                return {}
            o = obs(f)
        elif op == 'exec':
            def f():
                a = execute(state['p'], s['ctx'], case['salt'] % 2)
                b = execute(state['p'], s['ctx'], 1)
                a['again'] = a == b
                return a
            o = obs(f)
            if o['err']:
                o.update(calls=[], raised=False, ctx=[0, 0, 0], again=False)
        else:
            def f():
                if op == 'append':
                    state['p'].append(item(s['item']))
                elif op == 'insert':
                    state['p'].insert(s['i'], item(s['item']))
                else:
                    state['p'].remove(s['i'])
                return {}
            o = obs(f)
        steps.append(dict(s, obs=o))
    return {'t': case['t'], 'steps': steps}


run_driver(run)
