#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE 'needs' 'what' < spec ; or: seed.py verify ID...
Builds seeded/<id>/ from an edit in a scratch copy and confirms: builds, stable tests pass, demo 0 without, nonzero with.
stdin: old text, line '====', new text, line '====', body of the demo's main.rs."""
import sys, os, json, subprocess, shutil
S = '/verif/seeded'
DEMO = r'''#!/bin/bash
# exit 0 when the property holds on the crate in the current directory
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
ferrous-chloride = { path = "$R/lib" }
serde = "1"
serde_derive = "1"
[workspace]
EOF
cd "$T"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo build --offline -q >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
timeout 120 "$T/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
W = '/tmp/seedw'
def prep():
    if not os.path.exists(W): sh(f'mkdir -p {W} && cp -a /repo {W}/repo')
    sh(f'cd {W}/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd')
def verify(id):
    prep()
    d = f'{S}/{id}'
    r = sh(f'git apply {d}/patch.diff', cwd=W + '/repo')
    if r.returncode: return 'patch does not apply: ' + r.stdout
    env = '. /opt/vp/env.sh; unset CARGO_TARGET_DIR; '
    t = sh(f'bash -c "{env} cargo test --workspace --no-fail-fast --offline -- --test-threads 8"', cwd=W + '/repo')
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else (base.get('passed') or base.get('stable') or base.get('tests'))
    if isinstance(names, dict): names = list(names)
    bad = [l for l in t.stdout.split('\n') if l.startswith('test ') and l.rstrip().endswith('FAILED')]
    comp = 'error: could not compile' in t.stdout or 'error[' in t.stdout
    w = sh(f'bash {d}/demo.sh', cwd=W + '/repo')
    o = sh(f'bash {d}/demo.sh', cwd='/repo')
    ok = not bad and not comp and w.returncode not in (0, 2) and o.returncode == 0
    return ('OK' if ok else 'BAD') + f' tests_failed={bad} compile_error={comp} demo_with={w.returncode} demo_without={o.returncode}' + ('' if ok else '\n' + t.stdout[-1500:] * comp + w.stdout[-800:] + o.stdout[-800:])
def main():
    if sys.argv[1] == 'verify':
        for i in sys.argv[2:] or sorted(os.listdir(S)): print(i, verify(i), flush=True)
        return
    id, prop, f, needs, what = sys.argv[1:6]
    parts = sys.stdin.read().split('\n====\n')
    prep()
    edits, body = parts[:-1], parts[-1]
    for k in range(0, len(edits), 2):
        old, new = edits[k].strip('\n'), edits[k + 1].strip('\n')
        g = f
        if old.startswith('@@ '): g, old = old[3:].split('\n', 1)
        p = f'{W}/repo/{g}'
        t = open(p).read()
        assert t.count(old) == 1, (t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = f'{S}/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W + '/repo').stdout)
    open(d + '/main.rs', 'w').write(body)
    open(d + '/demo.sh', 'w').write(DEMO)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    print(id, verify(id))
main()
