from common import *
from python.ficus.legacy.log.functions import (parse_log_from_strings, parse_log_from_string, parse_trace_from_string,
                                               serialize_log, serialize_logs)


def run(case):
    """characters of the specification are code points given by the alphabet of the case"""
    al = case['al']
    back = {c: i + 1 for i, c in enumerate(al)}
    s2 = lambda xs: ''.join(al[x - 1] for x in xs)

    def t2(s):
        if not isinstance(s, str) or any(c not in back for c in s):
            raise Malformed('text %r' % (s,))
        return [back[c] for c in s]
    names = lambda log: [[t2(e[CN]) for e in tr] for tr in log]
    m = elog()
    mk = lambda log: m.MyEventLog([m.MyTrace([m.MyEvent({CN: s2(n), 'other': 1}) for n in tr]) for tr in log])
    steps = []
    for s in case['ops']:
        def f():
            es = s2(s['es'])
            dflt = es == ','
            if s['op'] == 'parse':
                lines = [s2(x) for x in s['lines']]
                if len(lines) == 1 and s['fn'] % 2:
                    log = parse_log_from_string(lines[0], es) if not dflt else parse_log_from_string(lines[0])
                elif s['fn'] % 3 == 0:
                    log = m.MyEventLog([parse_trace_from_string(x, separator=es) for x in lines])
                else:
                    log = parse_log_from_strings(lines, separator=es) if not dflt else parse_log_from_strings(lines)
                if any(len(e) != 1 for tr in log for e in tr):
                    raise Malformed('events with more than a name')
                return {'log': names(log), 'text': t2(serialize_log(log, s2(s['ts']), es))}
            ts = s2(s['ts'])
            kw = {}
            if ts != '\n':
                kw['traces_separator'] = ts
            if not dflt:
                kw['events_separator'] = es
            if s['op'] == 'write':
                text = serialize_log(mk(s['log']), **kw)
                return {'text': t2(text), 'log': names(parse_log_from_strings(text.split(ts), separator=es))}
            if s2(s['ls']) != '\n\n':
                kw['logs_separator'] = s2(s['ls'])
            return {'text': t2(serialize_logs([mk(l) for l in s['logs']], **kw))}
        o = obs(f)
        steps.append(dict(s, obs=o))
    return {'t': case['t'], 'steps': steps}


run_driver(run)
