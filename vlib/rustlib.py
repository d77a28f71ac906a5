"""Builds the Rust backend of VERIF_REPO together with /verif/rust/driver (offline, stand-ins for crates that are not
in the crate cache) in a scratch directory, and talks to the driver.

The backend's own lib.rs is compiled unchanged; the structs of its gRPC messages are generated from protos/*.proto."""
import ctypes
import json
import os
import re
import resource
import select
import shutil
import signal
import subprocess
import time

from vlib.core import NoAnswer, Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
RUST = os.path.join(ROOT, 'rust')

SCALARS = {'string': '::std::string::String', 'uint32': 'u32', 'uint64': 'u64', 'int32': 'i32', 'int64': 'i64', 'bool': 'bool',
           'float': 'f32', 'double': 'f64', 'bytes': '::std::vec::Vec<u8>', 'google.protobuf.Timestamp': 'Timestamp',
           'google.protobuf.Empty': '()'}
PLAIN = {'string', 'uint32', 'uint64', 'int32', 'int64', 'bool', 'float', 'double', 'bytes'}
DERIVE = '#[derive(Clone, PartialEq, Debug, serde::Serialize, serde::Deserialize)]'
KEYWORDS = {'type', 'enum', 'struct', 'match', 'move', 'ref', 'mod', 'loop', 'use', 'where', 'box', 'dyn', 'fn', 'in', 'impl'}


def snake(name):
    s = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', name)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def camel(name):
    return ''.join(p[:1].upper() + p[1:] for p in name.split('_'))


def ident(name):
    return 'r#' + name if name in KEYWORDS else name


def parse_protos(texts):
    """[(message, [(field, type, repeated)], [(oneof, [(field, type)])])], [(service, [(rpc, in, out, streamed)])]"""
    messages, services = [], []
    for text in texts:
        text = re.sub(r'//[^\n]*', '', text)
        for m in re.finditer(r'\bmessage\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}', text):
            body, oneofs = m.group(2), []
            for o in re.finditer(r'oneof\s+(\w+)\s*\{([^{}]*)\}', body):
                oneofs.append((o.group(1), [(f.group(2), f.group(1)) for f in re.finditer(r'([\w.]+)\s+(\w+)\s*=\s*\d+\s*;', o.group(2))]))
            rest = re.sub(r'oneof\s+\w+\s*\{[^{}]*\}', '', body)
            fields = [(f.group(3), f.group(2), bool(f.group(1))) for f in re.finditer(r'(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+\s*;', rest)]
            messages.append((m.group(1), fields, oneofs))
        for s in re.finditer(r'\bservice\s+(\w+)\s*\{([^{}]*)\}', text):
            rpcs = re.findall(r'rpc\s+(\w+)\s*\(\s*([\w.]+)\s*\)\s*returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)', s.group(2))
            services.append((s.group(1), [(n, i, o, bool(st)) for n, i, st, o in rpcs]))
    return messages, services


def proto_to_rust(texts):
    messages, services = parse_protos(texts)

    def ty(t, prefix=''):
        return SCALARS[t].replace('Timestamp', prefix + 'Timestamp') if t in SCALARS else prefix + camel(t)

    out = [DERIVE.replace('Debug', 'Debug, Default'), 'pub struct Timestamp { pub seconds: i64, pub nanos: i32 }']
    for name, fields, oneofs in messages:
        out += ['#[derive(Clone, PartialEq, Debug, Default, serde::Serialize, serde::Deserialize)]', '#[serde(default)]', f'pub struct {name} {{']
        for f, t, rep in fields:
            rt = f'::std::vec::Vec<{ty(t)}>' if rep else ty(t) if t in PLAIN else f'::std::option::Option<{ty(t)}>'
            out.append(f'    pub {ident(snake(f))}: {rt},')
        for o, _ in oneofs:
            out.append(f'    pub {ident(snake(o))}: ::std::option::Option<{snake(name)}::{camel(o)}>,')
        out.append('}')
        if oneofs:
            out.append(f'pub mod {snake(name)} {{')
            for o, fs in oneofs:
                out += [DERIVE, f'pub enum {camel(o)} {{']
                out += [f'    {camel(f)}({ty(t, "super::") if t not in PLAIN else ty(t)}),' for f, t in fs]
                out.append('}')
            out.append('}')
    for name, rpcs in services:
        out += [f'pub mod {snake(name)}_server {{', '#[allow(async_fn_in_trait)]', f'pub trait {name}: Send + Sync + \'static {{']
        for n, i, o, streamed in rpcs:
            if streamed:
                out.append(f'    type {n}Stream: futures::Stream<Item = ::std::result::Result<{ty(o, "super::")}, tonic::Status>> + Send + \'static;')
            res = f'Self::{n}Stream' if streamed else ty(o, 'super::')
            out.append(f'    async fn {snake(n)}(&self, request: tonic::Request<{ty(i, "super::")}>) -> '
                       f'::std::result::Result<tonic::Response<{res}>, tonic::Status>;')
        out += ['}', '}']
    return '\n'.join(out) + '\n'


CARGO = '''[package]
name = "ficus_backend"
version = "0.1.0"
edition = "2021"

[lib]
name = "ficus_backend"
path = "{src}/lib.rs"

[[bin]]
name = "{name}"
path = "{driver}/{name}.rs"

[dependencies]
chrono = "0.4.26"
quick-xml = {{ path = "{stubs}/quick_xml" }}
lazycell = {{ path = "{stubs}/lazycell" }}
tonic = {{ path = "{stubs}/tonic" }}
tokio = {{ version = "1", features = ["rt-multi-thread", "sync", "rt", "time"] }}
futures = "0.3"
tokio-stream = "0.1"
rand = {{ path = "{stubs}/rand" }}
nameof = {{ path = "{stubs}/nameof" }}
once_cell = "1"
fancy-regex = "0.11.0"
stopwatch = {{ path = "{stubs}/stopwatch" }}
linfa = {{ path = "{stubs}/linfa" }}
linfa-clustering = {{ path = "{stubs}/linfa_clustering" }}
linfa-nn = {{ path = "{stubs}/linfa_nn" }}
ndarray = {{ path = "{stubs}/ndarray" }}
bxes = {{ path = "{stubs}/bxes" }}
uuid = {{ version = "1.4.1", features = ["v4", "fast-rng"] }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"

[profile.dev]
opt-level = 1
debug = 0
incremental = false
overflow-checks = true
'''


class BuildError(NoAnswer):
    pass


def build(scratch, prop):
    """compile the backend and the driver of the property; returns the path of the driver"""
    crate = os.path.join(scratch, 'crate')
    os.makedirs(crate)
    src = os.path.join(REPO, 'src/rust/ficus_backend/src')
    name = prop.lower()
    with open(os.path.join(crate, 'Cargo.toml'), 'w') as f:
        f.write(CARGO.format(src=src, name=name, driver=os.path.join(RUST, 'driver'), stubs=os.path.join(RUST, 'stubs')))
    shutil.copy(os.path.join(RUST, 'Cargo.lock'), os.path.join(crate, 'Cargo.lock'))
    protos = os.path.join(REPO, 'protos')
    with open(os.path.join(crate, 'ficus.rs'), 'w') as f:
        f.write(proto_to_rust([open(os.path.join(protos, n)).read() for n in sorted(os.listdir(protos)) if n.endswith('.proto')]))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(scratch, 'target'), FICUS_PROTO_RS=os.path.join(crate, 'ficus.rs'),
               RUSTFLAGS='-Awarnings', CARGO_TERM_COLOR='never')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(crate, 'Cargo.toml')],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('the backend does not compile:\n' + p.stdout[-6000:])
    return os.path.join(scratch, 'target', 'debug', name)


class Backend:
    """one driver process; panics, deaths and missing answers of the backend are violations"""

    def __init__(self, path, timeout=30):
        self.path, self.timeout, self.p, self.buffer = path, timeout, None, b''

    def start(self):
        libc = ctypes.CDLL(None)

        def prepare():
            libc.prctl(1, signal.SIGKILL)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=prepare)
        self.buffer = b''

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def raw(self, op, **args):
        """{'ok': result} or {'panic': message}"""
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(dict(args, op=op)).encode() + b'\n')
        self.p.stdin.flush()
        end = time.time() + self.timeout
        while not self.buffer.endswith(b'\n'):
            ready, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not ready:
                self.stop()
                raise Violation(f'the backend gave no answer within {self.timeout}s (does not terminate): {op} {args}')
            chunk = os.read(self.p.stdout.fileno(), 1 << 20)
            if not chunk:
                code = self.p.wait()
                self.p = None
                raise Violation(f'the backend process ended with {code}: {op} {args}')
            self.buffer += chunk
        line, self.buffer = self.buffer, b''
        return json.loads(line)

    def __call__(self, op, **args):
        r = self.raw(op, **args)
        if 'panic' in r:
            raise Violation(f'the backend panicked: {r["panic"]}: {op} {args}')
        return r['ok']


DRIVER = [None]
BACKEND = [None]


def setup(prop):
    def run(scratch):
        d = os.path.join(scratch, 'rust')
        DRIVER[0] = build(d, prop)
    return run


def backend():
    """the driver of this worker process"""
    b = BACKEND[0]
    if b is None or b[0] != os.getpid():
        b = BACKEND[0] = (os.getpid(), Backend(DRIVER[0]))
    return b[1]
