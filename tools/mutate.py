#!/usr/bin/env python3
"""mutate.py OUT.jsonl LANES [seed] [per-file cap]: plants small syntactic changes in copies of /repo; those which the stable tests do not notice
are given to the checks of the properties anchored in the changed file."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue
V = os.environ.get('VERIF_DIR', '/verif')
SRC = 'src/python/ficus'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SKIP = ('_pb2.py', '_pb2_grpc.py')
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+'}


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno))
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.arg) and n.annotation is not None:
            for x in ast.walk(n.annotation):
                doc.add(id(x))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for x in ast.walk(n.returns):
                doc.add(id(x))
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                doc.add(id(x))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant):
                    doc.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                doc.add(id(x))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '(%s) %s (%s)' % (text(n.left), SWAP[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'int+1')
                if n.value > 0:
                    rep(n, str(n.value - 1), 'int-1')
            elif isinstance(n.value, str) and n.value and n.lineno == n.end_lineno:
                rep(n, repr(n.value + 'X'), 'str')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, '(%s) %s (%s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'arith')
        elif isinstance(n, ast.BoolOp):
            o = ' and ' if isinstance(n.op, ast.Or) else ' or '
            rep(n, o.join('(%s)' % text(v) for v in n.values), 'boolop')
            rep(n, '(%s)' % text(n.values[0]), 'drop cond')
            rep(n, '(%s)' % text(n.values[-1]), 'drop cond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), 'not')
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('copy.deepcopy', 'copy.copy', 'list', 'set', 'sorted', 'deepcopy', 'reversed', 'dict') and len(n.args) >= 1:
                rep(n, text(n.args[0]), 'uncall ' + f)
            if f == 'copy.deepcopy':
                rep(n, 'copy.copy(%s)' % text(n.args[0]), 'shallow')
            for i in range(len(n.args) - 1):
                s, e = span(n.args[i])[0], span(n.args[i + 1])[1]
                out.append((s, e, '%s, %s' % (text(n.args[i + 1]), text(n.args[i])), 'swap args', n.lineno))
            for kw in n.keywords:
                if kw.arg and kw.arg not in ('file',):
                    s, e = span(kw)
                    out.append((s, e, '', 'drop kwarg ' + kw.arg, n.lineno))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and len(n.args) == 1:
                rep(n, '%s.insert(0, %s)' % (text(n.func.value), text(n.args[0])), 'prepend')
            if f == 'filter':
                rep(n, text(n.args[1]), 'unfilter')
            if f in ('min', 'max'):
                rep(n.func, {'min': 'max', 'max': 'min'}[f], 'minmax')
        elif isinstance(n, ast.IfExp):
            rep(n, text(n.body), 'ifexp')
            rep(n, text(n.orelse), 'ifexp')
        elif isinstance(n, ast.Dict) and len(n.keys) == 0:
            pass
        if isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'not (%s)' % text(n.test), 'negate') if not isinstance(n.test, (ast.Compare, ast.UnaryOp)) else None
            if isinstance(n, ast.If):
                rep(n.test, 'True', 'if True')
                rep(n.test, 'False', 'if False')
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Assign)) and hasattr(n, 'lineno'):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield)):
                continue
            if isinstance(n, ast.Expr) and 'super()' in text(n):
                continue
            if isinstance(n, ast.Assign) and n.col_offset == 0:
                continue
            rep(n, 'pass', 'delete')
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == 'current_input':
            pass
    res = []
    for s, e, new, what, line in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(t, path, 'exec')
        except SyntaxError:
            continue
        if t != src:
            res.append((line, what, b[s:e].decode(), new, t))
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    out, lanes = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    cap = int(sys.argv[4]) if len(sys.argv) > 4 else 15
    only = sys.argv[5] if len(sys.argv) > 5 else ''
    rng = random.Random(seed)
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    files = sh('git -C /repo ls-files %s' % SRC).stdout.split()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    todo = []
    for f in files:
        if not f.endswith('.py') or f.endswith(SKIP) or only not in f:
            continue
        ids = [p['id'] for p in props if os.path.basename(f) in json.dumps(p) and f.replace(SRC, 'X').split('X')[1][1:].split('/')[0] in json.dumps(p)]
        ms = mutants(os.path.join('/repo', f))
        rng.shuffle(ms)
        n = max(4, min(len(ms), cap * max(1, sum(1 for _ in open('/repo/' + f)) // 100)))
        for m in ms[:n]:
            if (f,) + m[:4] not in done:
                todo.append((f, ids, m))
    rng.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    q = queue.Queue()
    for x in todo:
        q.put(x)
    lock = threading.Lock()

    def lane(k):
        d = tempfile.mkdtemp(prefix='mut%d_' % k)
        r = d + '/repo'
        sh('cp -a /repo %s' % r)
        v = d + '/verif'
        sh('cp -a %s %s' % (V, v))
        t = open('/opt/vp/test.sh').read().replace('/repo/', r + '/').replace('/opt/vp/reports', d + '/reports')
        open(d + '/t.sh', 'w').write(t)
        while not os.path.exists('/tmp/mut/STOP'):
            try:
                f, ids, (line, what, old, new, txt) = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(r, f)
            orig = open(p).read()
            rec = {'file': f, 'line': line, 'what': what, 'old': old, 'new': new, 'ids': ids}
            try:
                open(p, 'w').write(txt)
                try:
                    sh('bash %s/t.sh %s/o.json' % (d, d), timeout=120)
                    passed = set(json.load(open(d + '/o.json'))['passed'])
                except Exception:
                    passed = set()
                if STABLE - passed:
                    rec['res'] = 'tests'
                else:
                    rec['res'] = 'survived'
                    rec['bad'] = []
                    for i in ids:
                        try:
                            x = sh('bin/check %s quick' % i, cwd=v, env=dict(os.environ, FICUS_REPO=r, VERIF_MODEL_CACHE='/tmp/mut/cache'), timeout=900)
                            rc = x.returncode
                        except subprocess.TimeoutExpired:
                            rc = 'timeout'
                        if rc == 1:
                            rec['res'] = i
                            break
                        if rc != 0:
                            rec['bad'].append([i, rc, x.stdout[-300:] if rc != 'timeout' else ''])
            finally:
                open(p, 'w').write(orig)
            with lock, open(out, 'a') as fo:
                fo.write(json.dumps(rec) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
