"""Running TLC, building the harnesses against /repo, and reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
START = time.time()
DEADLINE = 840


class ToolError(Exception):
    """The check could not be carried out (exit status 2)."""


def log(*a):
    print('[%6.1fs]' % (time.time() - START), *a, flush=True)


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.decode().split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            e[k] = v
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def repo_hash():
    h = hashlib.sha256()
    for sub in ['Cargo.toml', 'src', 'value', 'derive', 'difffuzz']:
        p = os.path.join(REPO, sub)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs if '/target' not in d and f.endswith(('.rs', '.toml')))
        for f in files:
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def stamp(crates, name):
    """Force a rebuild of /repo's crates in the given target directory when their text changed."""
    h = repo_hash()
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    s = os.path.join(d, '.repo-hash')
    if not os.path.exists(s) or open(s).read() != h:
        if os.path.exists(s):
            os.unlink(s)
        for prof in ('debug', 'release', 'wasm32-unknown-unknown/debug'):
            fp = os.path.join(d, prof, '.fingerprint')
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(('oasis-cbor', 'ffi-harness', 'wasm')):
                        shutil.rmtree(os.path.join(fp, x))
    return s, h


def cargo(crate_dir, args=('build',), target='target', check=True, extra_env=None):
    s, h = stamp([], target)
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, target)
    e.update(extra_env or {})
    r = subprocess.run(['cargo'] + list(args) + ['--offline'], cwd=crate_dir, env=e, capture_output=True, text=True)
    if r.returncode == 0:
        open(s, 'w').write(h)
    elif check:
        sys.stdout.write(r.stderr[-2500:])
        raise ToolError('build of %s failed' % crate_dir)
    return r


def val_bin():
    cargo(os.path.join(VERIF, 'harness/val'))
    cargo(os.path.join(VERIF, 'harness/ffi'))
    os.environ['FFI_LIB'] = os.path.join(BUILD, 'target/debug/libffi_harness.so')
    return os.path.join(BUILD, 'target/debug/val')


def wasm_ex(which='wasm'):
    """A harness for WebAssembly, a target of 32 bits.  The standard library is built from its source, and
    cargo is shown all crates in a folder, because the registry's index is that of another version."""
    crate = os.path.join(VERIF, 'harness', which)
    vendor = os.path.join(BUILD, 'vendor')
    os.makedirs(vendor, exist_ok=True)
    e = env()
    cache = os.path.join(e.get('CARGO_HOME') or os.path.expanduser('~/.cargo'), 'registry/cache')
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
    std = os.path.join(root, 'lib/rustlib/src/rust/library/vendor')
    for name, ver, sum_ in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([0-9a-f]+)"',
                                      open(os.path.join(crate, 'Cargo.lock')).read()):
        d = '%s-%s' % (name, ver)
        found = [f for f in (os.path.join(cache, x, d + '.crate') for x in sorted(os.listdir(cache))) if os.path.exists(f)
                 and hashlib.sha256(open(f, 'rb').read()).hexdigest() == sum_]
        if not found:
            raise ToolError('no crate ' + d)
        if not os.path.exists(os.path.join(vendor, d, '.cargo-checksum.json')):
            shutil.unpack_archive(found[0], vendor, 'gztar')
            write(os.path.join(vendor, d, '.cargo-checksum.json'), json.dumps(dict(files={}, package=sum_)))
    for d in sorted(os.listdir(std)):
        if not os.path.lexists(os.path.join(vendor, d)):
            os.symlink(os.path.join(std, d), os.path.join(vendor, d))
    # Packages are looked for from the crate's folder upwards; what is built goes to a folder of its own.
    cargo(crate, ['+nightly', 'build', '-q', '--target', 'wasm32-unknown-unknown', '-Zbuild-std=std,panic_abort',
                  '--config', 'source.crates-io.replace-with="v"', '--config', 'source.v.directory="%s"' % vendor],
          target='wasm', extra_env=dict(RUSTFLAGS='-C link-arg=-zstack-size=67108864'))
    return ['node', os.path.join(VERIF, 'tools/wasm.js'), os.path.join(BUILD, 'wasm/wasm32-unknown-unknown/debug/%s.wasm' % which.replace('-', '_'))]


GEN = os.path.join(BUILD, 'gen')


def write(path, text):
    with open(path + '.tmp', 'w') as f:
        f.write(text)
    os.replace(path + '.tmp', path)


def export(module, extra_env=None):
    """The JSON that an exporting specification prints."""
    d = scratch('export-' + module)
    e = dict(os.environ, CATALOGUE=os.path.join(GEN, 'catalogue.json'), **(extra_env or {}))
    r = subprocess.run(['timeout', '600'] + tlc_cmd(module + '.tla', module + '.cfg', d, 1), cwd=d, env=e, capture_output=True, text=True)
    for line in r.stdout.split('\n'):
        if line.startswith('"@@'):
            shutil.rmtree(d, ignore_errors=True)
            return json.loads(json.loads(line)[2:])
    raise ToolError('%s exported nothing: %s' % (module, r.stdout[-2000:]))


def text_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(os.path.join(VERIF, p), 'rb').read() + b'\0')
    return h.hexdigest()


def catalogue(name='catalogue', module='ExportCatalogue', source='Catalogue'):
    """The types of a catalogue, exported from the specification (to be rendered into Rust)."""
    import codegen
    os.makedirs(GEN, exist_ok=True)
    h = text_hash(*('spec/%s.tla' % m for m in ('BigNat', 'CborValue', 'CborCodec', 'TypeExprs', source, module)))
    s = os.path.join(GEN, '.%s-hash' % name)
    path = os.path.join(GEN, name + '.json')
    if not os.path.exists(path) or not os.path.exists(s) or open(s).read() != h:
        write(path, json.dumps(export(module)))
        write(s, h)
    return json.load(open(path)), codegen


def compile_errors(out):
    """The errors of cargo's JSON output: (message, [(file, line), ...]) with every span they touch."""
    found = []
    for line in out.split('\n'):
        if not line.startswith('{'):
            continue
        m = json.loads(line)
        if m.get('reason') != 'compiler-message' or not m['message']['level'].startswith('error'):
            continue
        spans = []

        def walk(sp):
            spans.append((sp['file_name'], sp['line_start']))
            if sp.get('expansion'):
                walk(sp['expansion']['span'])
        for sp in m['message']['spans']:
            if sp['is_primary']:
                walk(sp)
        found.append((m['message']['message'], m['message'].get('code'), spans))
    return found


EXCLUDED = {}     # definitions of the catalogue that did not compile: id -> message


def wasm_typed_ex():
    """The typed harness for WebAssembly."""
    cat, codegen = catalogue()
    text = codegen.Gen(cat).render(only=codegen.closure(cat, EXCLUDED))
    path = os.path.join(GEN, 'types.rs')
    if not os.path.exists(path) or open(path).read() != text:
        write(path, text)
    try:
        return wasm_ex('wasm-typed')
    except ToolError:
        # Some definition may be refused; find out which.
        n = len(EXCLUDED)
        typed_bin()
        if len(EXCLUDED) == n:
            raise
        return wasm_ex('wasm-typed')


def wasm_serde_ex():
    """The serde harness for WebAssembly."""
    serde_types()
    return wasm_ex('wasm-serde')


def typed_bin():
    """Build the typed harness; definitions that the derives refuse are left out (see EXCLUDED)."""
    cat, codegen = catalogue()
    path = os.path.join(GEN, 'types.rs')
    crate = os.path.join(VERIF, 'harness/typed')
    for _ in range(8):
        text = codegen.Gen(cat).render(only=codegen.closure(cat, EXCLUDED))
        if not os.path.exists(path) or open(path).read() != text:
            write(path, text)
        r = cargo(crate, ('build', '--message-format=json'), check=False)
        if r.returncode == 0:
            return os.path.join(BUILD, 'target/debug/typed')
        lines = text.split('\n')
        new = {}
        for msg, code, spans in compile_errors(r.stdout):
            for f, n in spans:
                if os.path.basename(f) != 'types.rs':
                    continue
                k = n - 1
                while k >= 0 and not re.match(r'^ *// (DEF|ROW|FUN) ', lines[k]):
                    k -= 1
                if k >= 0:
                    i = lines[k].split()[2]
                    if i not in EXCLUDED:
                        new[i] = msg
        if not new:
            sys.stdout.write(r.stderr[-2500:])
            for msg, code, spans in compile_errors(r.stdout)[:5]:
                print(msg, spans)
            raise ToolError('build of %s failed' % crate)
        log('left out because they do not compile: %s' % new)
        EXCLUDED.update(new)
    raise ToolError('build of %s failed too often' % crate)


def serde_types():
    cat, codegen = catalogue('serde', 'ExportSerde', 'SerdeCatalogue')
    text = codegen.SerdeGen(cat).render()
    path = os.path.join(GEN, 'serde_types.rs')
    if not os.path.exists(path) or open(path).read() != text:
        write(path, text)


def serde_bin():
    serde_types()
    cargo(os.path.join(VERIF, 'harness/serde'))
    return os.path.join(BUILD, 'target/debug/serde-harness')


class Report:
    """What one check found and covered."""

    def __init__(self, prop):
        self.prop = prop
        self.lock = threading.Lock()
        self.violations = []
        self.stages = []
        self.samples = []
        self.states = self.transitions = self.traces = 0
        self.known = []
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            self.open = {' '.join(x.split()[:3]): x for x in f if x.startswith('open:')}

    def stage(self, name, states=0, transitions=0, traces=0, samples=(), **more):
        with self.lock:
            self.states += states
            self.transitions += transitions
            self.traces += traces
            self.samples += [dict(stage=name, case=s) for s in list(samples)[:2]]
            self.stages.append(dict(stage=name, states=states, transitions=transitions, traces=traces, **more))
            log('%s: %d states, %d transitions, %d traces against the implementation %s' % (
                name, states, transitions, traces, ' '.join('%s=%s' % kv for kv in more.items() if kv[0] != 'kinds')[:300]))

    def violation(self, name, what):
        with self.lock:
            d = os.path.join(BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, stage=name, tier=TIER, seed=SEED, found=what), f, indent=1)
                f.write('\n')
            self.violations.append(path)
            if len(self.violations) <= 10:
                print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
                print('  %s: %s' % (name, json.dumps(what)[:1500]), flush=True)

    def listed(self, bad):
        """Is this mismatch exactly one that known-findings.txt lists?"""
        got = bad.get('got')
        key = got.get('finding') if isinstance(got, dict) else None
        if key is None or 'open: property=%s %s' % (self.prop, key) not in self.open:
            return False
        if key not in self.known:
            self.known_finding(key)
        return True

    def known_finding(self, what):
        with self.lock:
            self.known.append(what)
            text = self.open['open: property=%s %s' % (self.prop, what)]
            print('KNOWN-FINDING: ' + text[len('open: '):].strip(), flush=True)

    def finish(self, level, assumptions):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        samples = []
        for s in self.samples:
            c = s['case']
            t = c if isinstance(c, str) else json.dumps(c)
            samples.append(dict(stage=s['stage'], case=t if len(t) < 1500 else t[:1500] + '...'))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=samples[:24], stages=self.stages, known_findings=self.known),
                  assumptions=assumptions, wall_s=round(time.time() - START, 1), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')


def scratch(name):
    d = os.path.join(BUILD, 'run', '%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def tlc_cmd(module, cfg, meta, workers, heap='5g'):
    return ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-cp', JARS,
            '-Djava.io.tmpdir=' + meta, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
            '-config', cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), os.path.join(SPEC, module)]


COUNTS = re.compile(r'^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue')


def crashed(rc):
    """Reported by the harness itself, or ended by SIGILL, SIGABRT, SIGBUS, SIGFPE or SIGSEGV."""
    return rc in (134, 135, 139) or rc in (-4, -6, -7, -8, -11)


def crash_report(path):
    if not os.path.exists(path):
        return dict(crash='the code under test ended the process')
    try:
        return json.loads(open(path).read())
    except Exception as x:
        return dict(crash='unreadable report (%s)' % x)


def generate_and_replay(rep, name, module, cfg, executor, workers=4, extra_env=None, accept_empty=False, constants=None):
    """Explore a machine with TLC (checking its invariants) and replay every behaviour it emits."""
    d = scratch('%s-%s' % (rep.prop, name))
    if constants is not None:
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in constants.items():
            text, n = re.subn(r'(?m)^(CONSTANT %s = |  %s <- ).*$' % (k, k), lambda m: m.group(1) + str(v), text)
            assert n == 1, k
        cfg = os.path.join(d, 'run.cfg')
        write(cfg, text)
    crash = os.path.join(d, 'crash.json')
    e = dict(os.environ, HARNESS_CRASH=crash, **(extra_env or {}))
    meta = os.path.join(d, 'tlc')
    os.makedirs(meta, exist_ok=True)
    left = max(10, DEADLINE - (time.time() - START))
    tlc = subprocess.Popen(['timeout', '-k', '5', str(int(left))] + tlc_cmd(module, cfg, meta, workers),
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ex = subprocess.Popen(executor + ['-'], stdin=tlc.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, text=True)
    tlc.stdout.close()
    out, done, samples, kinds, bad, counts = [], None, [], {}, [], None
    for line in ex.stdout:
        line = line.rstrip('\n')
        if line.startswith('TLC '):
            m = COUNTS.match(line[4:])
            if m:
                counts = m
            out.append(line[4:])
        elif line.startswith('BAD '):
            bad.append(json.loads(line[4:]))
        elif line.startswith('SAMPLE '):
            samples.append(line[7:])
        elif line.startswith('KIND '):
            n, k = line[5:].split(' ', 1)
            kinds[k] = int(n)
        elif line.startswith('DONE '):
            done = [int(x) for x in line.split()[1:]]
    err = ex.stderr.read()
    rc = ex.wait()
    if crashed(rc):
        tlc.kill()
        tlc.wait()
        rep.violation(name, crash_report(crash))
        return
    trc = tlc.wait()
    if rc != 0 or done is None:
        raise ToolError('%s: replay failed (%d): %s' % (name, rc, err[-1500:]))
    if trc != 0 or counts is None or int(counts.group(3)) != 0:
        keep = [x for x in out if not x.startswith(('Semantic', 'Linting', 'Parsing'))]
        raise ToolError('%s: TLC failed (%d): %s' % (name, trc, '\n'.join(keep)[-3000:]))
    if done[0] == 0 and not accept_empty:
        raise ToolError('%s: no behaviour emitted' % name)
    new = [b for b in bad if not rep.listed(b)]
    for b in new[:3]:
        rep.violation(name, b)
    rep.stage(name, states=int(counts.group(2)), transitions=int(counts.group(1)), traces=done[0],
              samples=samples, kinds=kinds, mismatches=done[1], exhaustive_within_bounds=True)
    shutil.rmtree(d, ignore_errors=True)
    return kinds


def record_and_validate(rep, name, module, recorder, prop, workers=4, extra_env=None, cfg='Trace.cfg', need=()):
    """Record sessions of the real code and have TLC check them against the specification."""
    d = scratch('%s-%s' % (rep.prop, name))
    crash = os.path.join(d, 'crash.json')
    trace = os.path.join(d, 'trace.ndjson')
    r = subprocess.run(recorder + [trace], env=dict(os.environ, HARNESS_CRASH=crash), capture_output=True, text=True)
    if crashed(r.returncode):
        rep.violation(name, crash_report(crash))
        return
    if r.returncode != 0:
        raise ToolError('%s: recording failed (%d): %s' % (name, r.returncode, (r.stdout + r.stderr)[-1500:]))
    events, ops, sample = 0, {}, []
    with open(trace) as f:
        n = 0
        for line in f:
            n += 1
            for k in re.findall(r'"op":"([a-z_]+)"', line):
                ops[k] = ops.get(k, 0) + 1
                events += 1
            if n <= 2:
                sample.append(line[:1200])
    if events == 0:
        raise ToolError('%s: nothing recorded' % name)
    for k in need:
        if not ops.get(k):
            raise ToolError('%s: no %s event recorded' % (name, k))
    meta = os.path.join(d, 'tlc')
    os.makedirs(meta, exist_ok=True)
    left = max(10, DEADLINE - (time.time() - START))
    t = subprocess.run(['timeout', '-k', '5', str(int(left))] + tlc_cmd(module, cfg, meta, workers, heap='8g'), cwd=d,
                       env=dict(os.environ, TRACE=trace, PROP=prop, **(extra_env or {})), capture_output=True, text=True)
    out = [x for x in t.stdout.split('\n') if not x.startswith(('Semantic', 'Linting', 'Parsing'))]
    m = None
    for x in out:
        m = COUNTS.match(x) or m
    # 75, 76: the event cannot even be evaluated by the specification, because it is none of its kind.
    if t.returncode in (11, 75, 76) or any('Deadlock reached' in x for x in out):
        sid = l = None
        for x in out:
            a = re.match(r'^(?:/\\ )?sid = (\d+)', x)
            b = re.match(r'^(?:/\\ )?l = (\d+)', x)
            sid = int(a.group(1)) if a else sid
            l = int(b.group(1)) if b else l
        if sid is None or l is None:
            raise ToolError('%s: TLC failed (%d): %s' % (name, t.returncode, '\n'.join(out)[-3000:]))
        line = open(trace).read().split('\n')[sid - 1]
        ev = json.loads(line)
        rep.violation(name, dict(what='no action of the specification explains this recorded event', session=sid,
                                 event=l, recorded=ev['evs'][l - 1], recorder=recorder[1:]))
        return
    if t.returncode != 0 or m is None or int(m.group(3)) != 0:
        raise ToolError('%s: TLC failed (%d): %s' % (name, t.returncode, '\n'.join(out)[-3000:]))
    # Every event must have been consumed: the states are one per session and event.
    if int(m.group(2)) != events + n:
        raise ToolError('%s: %s states for %d events in %d sessions' % (name, m.group(2), events, n))
    rep.stage(name, states=int(m.group(2)), transitions=int(m.group(1)), traces=n, samples=sample, events=events, ops=ops)
    shutil.rmtree(d, ignore_errors=True)
    return ops


def run_all(jobs, width=3):
    """Run the stages of a check, a few at a time; the first tool error wins."""
    with ThreadPoolExecutor(width) as ex:
        fs = [ex.submit(j) for j in jobs]
        for f in fs:
            f.result()
