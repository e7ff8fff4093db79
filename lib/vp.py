"""Shared machinery of the checks: builds, TLC runs, known findings, evidence, verdicts."""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, '.build')
WORK = os.path.join(ROOT, 'work')
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 2)


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


def env(**extra):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0', RUST_BACKTRACE='0', RUSTC_WRAPPER='')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update({k: str(v) for k, v in extra.items()})
    return e


def build(crate, binary):
    """Build a harness crate against /repo's current tree; returns the path of the binary."""
    d = os.path.join(ROOT, 'harness', crate)
    target = os.path.join(BUILD, crate)
    t = time.time()
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=d, env=env(CARGO_TARGET_DIR=target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('build of harness %s failed:\n%s' % (crate, p.stdout[-4000:]))
    log('built harness %s in %.1fs' % (crate, time.time() - t))
    return os.path.join(target, 'debug', binary)


def log(*a):
    print(*a, flush=True)


class Tlc:
    """The outcome of one TLC run."""

    def __init__(self, out, wall):
        self.out, self.wall = out, wall
        m = re.findall(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found', out)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        self.finished = 'Model checking completed. No error has been found.' in out
        self.violated = re.findall(r'(?:Invariant|Action property|Property|property|Temporal propert\w+) ?(\w*) ?(?:is|was|were) violated', out)
        self.rejects = [tuple(json.loads('[' + x + ']')) for x in re.findall(r'<<"REJECT", (.*)>>', out)]
        self.chunks = [int(x) for x in re.findall(r'<<"CHUNK", (\d+)>>', out)]


def tlc(module, cfg, workers=CPUS, heap='6g', xss='512m', timeout=840, tag=None, **extra):
    tag = tag or cfg
    meta = os.path.join(WORK, 'tlc-%s-%d' % (re.sub(r'\W', '_', tag), os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    t = time.time()
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss' + xss, '-Djava.io.tmpdir=' + meta,
           '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet', '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
           '-lncheck', 'final', '-metadir', meta, '-workers', str(workers), '-config', cfg + '.cfg', module + '.tla']
    cmd = [c for c in cmd if 'FPSet.impl' not in c]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env(**extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace', timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC %s timed out after %ds' % (tag, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, time.time() - t)


PROOFS = {'C01': ['PowerProof'], 'C02': ['EuclidProof'], 'C03': ['EuclidProof'], 'C04': ['EuclidProof'], 'C05': ['GarnerProof'],
          'C06': ['PowerProof'], 'C07': ['FibProof'], 'C08': ['SieveProof'], 'C09': ['SieveProof'], 'C10': ['ServiceProof'], 'C17': ['SessionProof'], 'C20': ['FileProof']}


def prove(module, work):
    """Checks the proofs of a module with TLAPS. They are about the design alone, so a prover that does not
    answer in time (the machine may be busy) is recorded, not reported."""
    d = os.path.join(work, 'proof-' + module)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(os.path.join(SPEC, 'proofs', module + '.tla'), d)
    t = time.time()
    out = ''
    for stretch in ('1', '5'):
        try:
            p = subprocess.run(['tlapm', '--threads', '2', '--stretch', stretch, module + '.tla'], cwd=d, env=env(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', timeout=150)
            out = p.stdout
        except (OSError, subprocess.TimeoutExpired) as x:
            out = repr(x)
        m = re.search(r'All (\d+) obligations? proved', out)
        if m:
            break
    shutil.rmtree(d, ignore_errors=True)
    r = {'module': module, 'obligations_proved': int(m.group(1)) if m else 0, 'complete': bool(m), 'wall_s': round(time.time() - t, 1)}
    if not m:
        r['last_output'] = out[-300:]
        log('note: the proofs of %s were not completed in this run' % module)
    return r


def plain(t):
    """~hex~ stands for a character that is not printable ASCII"""
    return re.sub(r'~([0-9a-f]+)~', lambda m: chr(int(m.group(1), 16)), t)


def emitted(out):
    """the texts a model wrote"""
    r = {json.loads(l)[5:] for l in out.splitlines() if l.startswith('"TEXT ')}
    return [plain(t) for t in sorted(r)]


# ---------------------------------------------------------------------------- running recorded calls

def limit():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(binary, calls, out, stall=120, args=()):
    """Run the harness over calls (list of json objects with "i"); a call that makes the
    process die becomes an event of kind "crash", one that makes no progress a "hang"."""
    inp = out + '.in'
    with open(inp, 'w') as f:
        for c in calls:
            f.write(json.dumps(c) + '\n')
    if os.path.exists(out):
        os.remove(out)
    open(out, 'w').close()
    done, lost = 0, 0
    while done < len(calls):
        p = subprocess.Popen([binary, *args, inp, out, str(done)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             stdin=subprocess.DEVNULL, preexec_fn=limit, env=env())
        size, since, hang = os.path.getsize(out), time.time(), False
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                s = os.path.getsize(out)
                if s != size:
                    size, since = s, time.time()
                elif time.time() - since > stall:
                    hang = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        with open(out, 'rb') as f:
            data = f.read()
        if data and not data.endswith(b'\n'):
            data = data[:data.rfind(b'\n') + 1]
            with open(out, 'wb') as f:
                f.write(data)
        done = data.count(b'\n')
        if p.returncode == 0 and not hang:
            if done != len(calls):
                raise ToolError('harness ended early: %d of %d' % (done, len(calls)))
            break
        if done >= len(calls):
            break
        c = calls[done]
        kind = 'hang' if hang else 'crash'
        with open(out, 'a') as f:
            f.write(json.dumps({'i': c['i'], 'lost': kind}) + '\n')
        done += 1
        lost += 1
        if hang or lost >= 20:   # the rest of this shard is not examined
            break
    with open(out) as f:
        return [json.loads(l) for l in f]


def record_parallel(binary, calls, work, jobs=CPUS, stall=120, args=()):
    """Spread the calls over processes; returns events by call id."""
    jobs = max(1, min(jobs, len(calls)))
    shards = [calls[j::jobs] for j in range(jobs)]
    ev = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda j: record(binary, shards[j], os.path.join(work, 'shard%d.ndjson' % j), stall, args), range(jobs)):
            for e in r:
                ev[e['i']] = e
    return ev


# ---------------------------------------------------------------------------- known findings

def known_findings(prop):
    """Lines `finding: property=<id> key=<json> | <what fails>`; other lines are notes or fixed entries."""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\w+) key=(.*?) \| (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                r.append((json.loads(m.group(2)), m.group(3)))
    return r


# ---------------------------------------------------------------------------- a check

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(WORK, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.assumptions = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, t):
        self.states += t.distinct
        self.transitions += t.generated

    # --- design models
    def design(self, jobs):
        """jobs: (module, cfg, expectation) with expectation 'holds' or 'refuted'. Returns the emitted calls."""
        def one(j):
            module, cfg, want = j
            out = os.path.join(self.work, 'emit-%s.ndjson' % cfg)
            t = tlc(module, cfg, workers=4 if len(jobs) > 1 else CPUS, OUT=out)
            if want == 'holds' and not t.finished:
                raise ToolError('design model %s: expected to hold\n%s' % (cfg, t.out[-3000:]))
            if want == 'refuted' and not t.violated:
                raise ToolError('design model %s: the wrong variant was not refuted\n%s' % (cfg, t.out[-3000:]))
            return t, out
        with cf.ThreadPoolExecutor(3) as ex:
            proofs = [ex.submit(prove, m, self.work) for m in PROOFS.get(self.prop, [])]
            res = list(ex.map(one, jobs))
            if proofs:
                self.cov['proofs'] = [p.result() for p in proofs]
        calls, self.texts = [], {}
        for (module, cfg, want), (t, out) in zip(jobs, res):
            if want == 'holds':
                self.count(t)
                self.texts[cfg] = emitted(t.out)
            self.cov.setdefault('design_models', []).append(
                {'model': cfg, 'outcome': want, 'distinct_states': t.distinct, 'states_generated': t.generated, 'wall_s': round(t.wall, 1)})
            if os.path.exists(out):
                calls += [json.loads(l) for l in open(out) if l.strip()]
        return calls

    # --- verdicts
    def violation(self, key, detail):
        for k, what in known_findings(self.prop):
            if k == key:
                if what not in self.known_hit:
                    self.known_hit.append(what)
                return
        self.violations.append((key, detail))

    def finish(self, replay_kind):
        for w in self.known_hit:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        rdir = os.path.join(WORK, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (key, detail) in enumerate(self.violations[:10]):
            p = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'kind': replay_kind, 'key': key, 'detail': detail,
                           'how': 'python3 run.py %s --replay %s' % (self.prop, os.path.relpath(p, ROOT))}, f, indent=1)
            log('  ' + json.dumps(key)[:300])
            log('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(p, ROOT)))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:12]}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s: %s, %d violation(s), %d known finding(s), %.1fs' % (
            self.prop, self.tier, len(self.violations), len(self.known_hit), time.time() - self.t0))
        return 1 if self.violations else 0
