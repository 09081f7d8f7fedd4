#!/usr/bin/env python3
"""mkseed.py [ID...]: turns tools/seeds/<ID>.py into seeded/<ID>/ after confirming it in a scratch copy of /repo:
the patch applies, the stable tests pass with it, the demo passes without and fails with it.
Each seed file defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; cwd is the repository).
With RUST = True the files are those of the Rust backend and DEMO is a Rust program against it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = ('import os, sys\nsys.path[:0] = [os.path.join(os.getcwd(), "src", "python"), os.path.join(os.getcwd(), "src")]\n'
        'sys.dont_write_bytecode = True\nos.environ.setdefault("MPLBACKEND", "Agg")\n')
RS = '''import os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix='demo_')
try:
    shutil.copytree('src/rust/ficus_backend/src', d + '/src')
    for x in ('grpc', 'event_log/bxes', 'bin'):
        shutil.rmtree(d + '/src/' + x, ignore_errors=True)
    if os.path.exists(d + '/src/main.rs'):
        os.remove(d + '/src/main.rs')
    os.makedirs(d + '/src/event_log/bxes')
    open(d + '/src/event_log/bxes/mod.rs', 'w').write(%r)
    s = open(d + '/src/lib.rs').read()
    s = re.sub(r'pub mod ficus_proto\\s*\\{[^}]*\\}', '', s)
    s = re.sub(r'(?m)^\\s*(pub )?mod grpc;\\s*$', '', s)
    open(d + '/src/lib.rs', 'w').write(s)
    for x in ('Cargo.toml', 'Cargo.lock'):
        shutil.copy(here + '/' + x, d)
    shutil.copytree(here + '/stubs', d + '/stubs')
    os.makedirs(d + '/src/bin')
    shutil.copy(here + '/demo.rs', d + '/src/bin/demo.rs')
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d + '/target', RUSTFLAGS='-Awarnings')
    subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', 'demo'], cwd=d, env=env, check=True)
    rc = subprocess.run([d + '/target/debug/demo'], cwd=d, timeout=60).returncode
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if rc == 0 else 1)
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(i):
    s = runpy.run_path(os.path.join(V, 'tools', 'seeds', i + '.py'))
    d = os.path.join(V, 'seeded', i)
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % r)
        sh('git -C %s checkout -q -- .' % r)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        rs = s.get('RUST')
        with open(d + '/demo.py', 'w') as f:
            if rs:
                sys.path.insert(0, V + '/lib')
                import rust
                f.write(RS % rust.BXES)
                for x in ('Cargo.toml', 'Cargo.lock'):
                    shutil.copy(V + '/harness/rust/' + x, d)
                shutil.copytree(V + '/harness/rust/stubs', d + '/stubs')
                open(d + '/demo.rs', 'w').write(s['DEMO'].lstrip('\n'))
            else:
                f.write(HEAD + s['DEMO'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/sh\n# exit 0 when the property holds on the demonstrated input\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        a = sh('sh %s/demo.sh' % d, cwd=r)
        for fn, old, new in s['EDITS']:
            p = os.path.join(r, 'src/rust/ficus_backend/src' if rs else 'src/python/ficus', fn)
            t = open(p).read()
            assert t.count(old) == 1, (i, fn, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        b = sh('sh %s/demo.sh' % d, cwd=r)
        t = open('/opt/vp/test.sh').read().replace('/repo/', r + '/').replace('/opt/vp/reports', tmp + '/reports')
        open(tmp + '/t.sh', 'w').write(t)
        sh('bash %s/t.sh %s/o.json' % (tmp, tmp))
        lost = STABLE - set(json.load(open(tmp + '/o.json'))['passed'])
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        ok = a.returncode == 0 and b.returncode != 0 and not lost
        print(i, s['PROPERTY'], 'OK' if ok else 'NOT OK', 'demo %d/%d' % (a.returncode, b.returncode), 'lost', sorted(lost)[:4])
        if not ok:
            print(a.stdout[-600:], b.stdout[-600:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(V, 'tools', 'seeds')) if x.endswith('.py')):
        make(i)
