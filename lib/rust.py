"""The Rust backend, compiled offline: the crate's sources as they are in /repo, with small stand-ins for the libraries
that are not installed (harness/rust/stubs), without the gRPC front and the BXES format."""
import json, os, re, resource, shutil, subprocess, time
import vlib

H = os.path.join(vlib.VERIF, 'harness', 'rust')
BXES = '''pub mod bxes_to_xes_converter { pub fn read_bxes_into_xes_log(_: &str) -> Result<crate::event_log::xes::xes_event_log::XesEventLogImpl, String> { Err("none".into()) } }
pub mod xes_to_bxes_converter { pub fn write_event_log_to_bxes(_: &crate::event_log::xes::xes_event_log::XesEventLogImpl, _: &str) -> Result<(), String> { Err("none".into()) } }
'''


def build(workdir, name, timeout=700):
    """Returns the path of the compiled driver bins/<name>.rs."""
    d = os.path.join(workdir, 'rs')
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(vlib.REPO, 'src/rust/ficus_backend/src'), d + '/src')
        shutil.rmtree(d + '/src/grpc', ignore_errors=True)
        shutil.rmtree(d + '/src/event_log/bxes', ignore_errors=True)
        for f in ('main.rs', 'bin'):
            p = d + '/src/' + f
            if os.path.isfile(p):
                os.remove(p)
        os.makedirs(d + '/src/event_log/bxes')
        open(d + '/src/event_log/bxes/mod.rs', 'w').write(BXES)
        s = open(d + '/src/lib.rs').read()
        s = re.sub(r'pub mod ficus_proto\s*\{[^}]*\}', '', s)
        s = re.sub(r'(?m)^\s*(pub )?mod grpc;\s*$', '', s)
        open(d + '/src/lib.rs', 'w').write(s)
        shutil.copytree(H + '/stubs', d + '/stubs')
        shutil.copy(H + '/Cargo.toml', d)
        shutil.copy(H + '/Cargo.lock', d)
        os.makedirs(d + '/src/bin')
        shutil.copytree(H + '/bins', d + '/bins')
    shutil.copy(H + '/bins/%s.rs' % name, d + '/src/bin/')
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d + '/target', RUSTFLAGS='-Awarnings')
    t = time.time()
    p = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', name], cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise vlib.MachineryError('the Rust backend does not compile:\n' + p.stdout[-3000:])
    return d + '/target/debug/' + name, time.time() - t


def drive(c, name, cases, procs=8, timeout=600):
    """Runs the driver on the cases; records what it did. A driver that dies is a violation."""
    exe, wall = build(c.work, name)
    c.notes.setdefault('builds', {})[name] = {'wall_s': round(wall, 1)}
    procs = max(1, min(procs, len(cases)))
    ps = []
    for i in range(procs):
        ch = cases[i::procs]
        ci, co, ce = (os.path.join(c.work, '%s.%d.%s' % (name, i, x)) for x in ('in', 'out', 'err'))
        with open(ci, 'w') as f:
            for x in ch:
                f.write(json.dumps(x) + '\n')
        fe = open(ce, 'w')
        wd = os.path.join(c.work, 'cwd%d' % i)
        os.makedirs(wd, exist_ok=True)
        ps.append((subprocess.Popen([exe, ci, co], cwd=wd, stdout=fe, stderr=subprocess.STDOUT, env=dict(os.environ, RUST_BACKTRACE='0'),
                                    preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))),
                   co, ce, fe, ch))
    out = []
    end = time.time() + timeout
    for p, co, ce, fe, ch in ps:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        fe.close()
        got = []
        if os.path.exists(co):
            for line in open(co):
                try:
                    got.append(json.loads(line))
                except ValueError:
                    break
        out.extend(got)
        if rc != 0 or len(got) != len(ch):
            c.violation('driver-died', {'why': ['driver %s did not finish: rc=%s' % (name, rc)],
                                        'death': {'rc': rc, 'stderr': open(ce, errors='replace').read()[-1500:],
                                                  'case': ch[len(got)] if len(got) < len(ch) else None}})
    return out
