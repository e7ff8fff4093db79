#!/usr/bin/env python3
"""mkseed.py SEEDFILE [id...]: plants the bugs of SEEDFILE (a python list SEEDS) in a scratch copy of /repo,
confirms each (builds, existing tests pass, demo passes without and fails with it) and writes seeded/<id>/."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/demo/src" && cp "$here/main.rs" "$w/demo/src/main.rs" && cp "$here/Cargo.lock" "$w/demo/Cargo.lock"
cat > "$w/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
sm_algorithm = { path = "$PWD/projects/sm-algorithm" }
num = "0.2"
T
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cd "$w/demo" && cargo build --offline --quiet || exit 3
timeout 200 "$w/target/debug/demo"
'''
LANGDEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/demo/src" && tar -xzf "$here/deps.tgz" -C "$w" && cp "$here/main.rs" "$w/demo/src/main.rs"
cp "$w/Cargo.lock" "$w/demo/Cargo.lock" 2>/dev/null
cat > "$w/demo/Cargo.toml" <<T
[package]
name = "vp_lang"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
sm_ast = { path = "$PWD/projects/sm-ast" }
sm_playground = { path = "$PWD/projects/sm-playground" }
wolfram_wxf = "0.4.1"
num = "0.2"
serde_json = "1"
[patch.crates-io]
bigdecimal = { path = "../stubs/bigdecimal" }
text-utils = { path = "../stubs/text-utils" }
wolfram_wxf = { path = "../stubs/wolfram_wxf" }
[profile.dev]
debug = 0
T
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cd "$w/demo" && cargo build --offline --quiet || exit 3
timeout 200 "$w/target/debug/vp_lang"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns['SEEDS']:
        if want and s['id'] not in want:
            continue
        shutil.rmtree(SCRATCH, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
        out = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        for f, old, new in s['edits']:
            p = os.path.join(SCRATCH, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=SCRATCH, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        open(os.path.join(out, 'main.rs'), 'w').write(s['main'])
        lang = s.get('lang')
        open(os.path.join(out, 'demo.sh'), 'w').write(LANGDEMO if lang else DEMO)
        if lang:
            subprocess.check_call(['bash', os.path.join(ROOT, 'tools', 'pack_lang_deps.sh'), os.path.join(out, 'deps.tgz')])
        else:
            t = open(os.path.join(ROOT, 'harness/kernel/Cargo.lock')).read().replace('"vp_kernel"', '"demo"')
            open(os.path.join(out, 'Cargo.lock'), 'w').write(t)
        e = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/seedtarget')
        shutil.rmtree('/tmp/seedws', ignore_errors=True)
        os.makedirs('/tmp/seedws/projects')
        for f in ('Cargo.toml', 'Cargo.lock'):
            shutil.copy('/opt/vp/ws/' + f, '/tmp/seedws/' + f)
        os.symlink(SCRATCH + '/projects/sm-algorithm', '/tmp/seedws/projects/sm-algorithm')
        r = sh(['cargo', 'test', '--offline', '--quiet', '--workspace'], cwd='/tmp/seedws', env=e)
        tests = r.returncode == 0
        a = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo')
        b = sh(['bash', os.path.join(out, 'demo.sh')], cwd=SCRATCH)
        ok = tests and a.returncode == 0 and b.returncode not in (0, 3)
        print(s['id'], 'OK' if ok else 'BAD', 'tests', tests, 'clean', a.returncode, 'patched', b.returncode, flush=True)
        if not ok:
            print(r.stdout[-1500:] if not tests else '', a.stdout[-1500:], b.stdout[-1500:])
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
