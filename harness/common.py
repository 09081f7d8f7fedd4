"""Shared part of the implementation drivers: imports the code under test from /repo, maps abstract values of the
specification (integer event classes, event ids) to concrete logs and back, and runs one driver function per case."""
import json, os, signal, sys, traceback

REPO = os.environ.get('FICUS_REPO', '/repo')
sys.path[:0] = [os.path.join(REPO, 'src', 'python'), os.path.join(REPO, 'src')]
sys.dont_write_bytecode = True

CN = 'concept:name'

SCHEMES = [
    # names that begin with each other and whose hashes end with the same digits (a 98, ac 3198, dV 2798; b 99, aF 2299)
    ['a', 'aF', 'ac', 'b', 'bc', 'c', 'cd', 'd', 'dV', 'e', 'es', 'f', 'fs', 'g', 'gI', 'h', 'hf', 'i', 'if', 'j'],
    ['Accept', 'Beta test', 'Check', 'Deliver', 'Enter', 'File', 'Gather', 'Hold', 'Inspect', 'Join', 'Keep', 'Label'],
    ['A.Start.1', 'A.Start.2', 'A.Stop.1', 'B.Start.1', 'B.Start.2', 'B.Stop.1', 'C.Run.1', 'C.Run.2', 'D.End.1',
     'D.End.2', 'E.X.1', 'E.X.2'],
    ['pay now', 'ship, it', 'tä-1', 'uß', 'vé é', 'wя', 'x中', 'y文字', 'zz', '{a}', '|b', '~c'],
    # names whose polynomial hashes are equal (only used where names are compared as such)
    ['BB', 'aA', 'aABB', 'aAaA', 'b', 'c', 'd', 'e'],
    # different names for which polynomial hashes of short sequences are equal: (a, A) and (B, B)
    ['a', 'A', 'B', '`', 'b', 'c'],
]


class Names:
    """Order preserving mapping class code <-> class name."""

    def __init__(self, scheme=0):
        self.names = SCHEMES[scheme % len(SCHEMES)]
        assert scheme % len(SCHEMES) > 3 or self.names == sorted(self.names)
        self.codes = {n: i for i, n in enumerate(self.names)}

    def n(self, code):
        return self.names[code]

    def c(self, name):
        if not isinstance(name, str):
            raise Malformed('name is not a string: %r' % (name,))
        if name not in self.codes:
            raise Malformed('unknown name: %r' % (name,))
        return self.codes[name]


class Malformed(Exception):
    """An observation that is not of the shape the interface promises."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def as_int(x):
    import numbers
    if isinstance(x, bool) or not isinstance(x, numbers.Integral):
        raise Malformed('not an integer: %r' % (x,))
    return int(x)


def err_of(e):
    return '%s: %s' % (type(e).__name__, str(e)[:160])


def guarded(fn, limit=20):
    """Runs fn; returns (value, None) or (None, error string). Errors of the code under test become observations."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(), None
    except CaseTimeout:
        return None, 'Timeout: no result after %ds' % limit
    except RecursionError as e:
        return None, 'RecursionError'
    except Exception as e:
        if os.environ.get('VDEBUG'):
            traceback.print_exc(file=sys.stderr)
        return None, err_of(e)
    finally:
        signal.alarm(0)


def obs(fn, limit=20):
    """Observation record: {'err': ''} + fields, or {'err': text}."""
    v, e = guarded(fn, limit)
    if e is not None:
        return {'err': e}
    v = dict(v)
    v['err'] = ''
    return v


_log_mod = None


def elog():
    global _log_mod
    if _log_mod is None:
        import python.ficus.legacy.log.event_log as m
        _log_mod = m
    return _log_mod


def mk_event(name, ident, extra=None):
    p = {CN: name, 'id': ident}
    if extra:
        p.update(extra)
    return elog().MyEvent(p)


def mk_log(codes, names, extra=None):
    """codes: list of traces of class codes. Events get ids 1.. in log order."""
    m = elog()
    i = 0
    log = m.MyEventLog()
    for tr in codes:
        t = m.MyTrace()
        for c in tr:
            i += 1
            t.append(mk_event(names.n(c), i, extra(i, c) if extra else None))
        log.append(t)
    return log


def enc_log(log, names):
    """log -> [[[class, id], ...], ...]"""
    return [[[names.c(e[CN]), as_int(e['id'])] for e in tr] for tr in log]


def enc_classes(log, names):
    return [[names.c(e[CN]) for e in tr] for tr in log]


def run_driver(fn):
    """fn(case) -> history dict {'t': id, 'steps': [...]}"""
    src, dst = sys.argv[1], sys.argv[2]
    null = open(os.devnull, 'w')
    sys.stdout = null
    with open(src) as fi, open(dst, 'w') as fo:
        for line in fi:
            case = json.loads(line)
            h = fn(case)
            fo.write(json.dumps(h) + '\n')
            fo.flush()
