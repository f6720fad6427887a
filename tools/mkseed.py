"""mkseed.py <seed.json-like python file>: builds and confirms a planted bug in a scratch copy (/tmp/wt)."""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it: exit 0 when the behaviour is right.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/run/input"
: > "$tmp/run/input/empty.dat"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
posidonius = { path = "$repo" }
serde_json = "1.0.*"
[profile.dev]
opt-level = 0
debug = false
[workspace]
T
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet 2>"$tmp/log" || { tail -5 "$tmp/log" >&2; exit 3; }
cd "$tmp/run"
exec_status=0
ulimit -s unlimited 2>/dev/null || true; "$tmp/target/debug/demo" || exec_status=$?
exit $exec_status
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def main(f):
    s = runpy.run_path(f)
    sid = s['ID']; wt = '/tmp/wt'
    if not os.path.isdir(wt): subprocess.check_call(['cp', '-a', '/repo', wt])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    sh('git fetch -q /repo main; git checkout -q -f %s' % head, wt)
    for path, old, new in s['EDITS']:
        p = os.path.join(wt, path); t = open(p).read()
        assert t.count(old) >= 1, ('not found', path, old)
        k = s.get('NTH', {}).get(old, 0)
        parts = t.split(old); t = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        open(p, 'w').write(t)
    d = os.path.join(V, 'seeded', sid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', wt).stdout)
    open(os.path.join(d, 'main.rs'), 'w').write(s['MAIN'])
    open(os.path.join(d, 'demo.sh'), 'w').write(s.get('DEMO', DEMO)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for n, txt in s.get('FILES', {}).items(): open(os.path.join(d, n), 'w').write(txt)
    if 'MAIN' not in s or not s['MAIN']: os.remove(os.path.join(d, 'main.rs'))
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('cargo test --offline --lib calculate_keplerian_orbital_elements 2>&1 | tail -4', wt)
    print('test:', 'ok' if 'test result: ok. 1 passed' in r.stdout else r.stdout)
    r = sh('cargo test --workspace --all-targets --no-run --offline', wt); print('build:', r.returncode)
    r = sh(os.path.join(d, 'demo.sh'), '/repo'); print('demo unchanged:', r.returncode, r.stdout[-300:], r.stderr[-300:])
    r = sh(os.path.join(d, 'demo.sh'), wt); print('demo patched:', r.returncode, r.stdout[-300:], r.stderr[-300:])
    sh('git checkout -q -f %s' % head, wt)
main(sys.argv[1])
