"""Builds the MIR exporter and exports the MIR of /repo's current working tree."""
import os, subprocess, hashlib, shutil, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

class ExportError(Exception): pass

def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def repo_hash():
    ps = []
    for r, d, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs: ps.append(os.path.join(r, f))
    for f in ('Cargo.toml', 'Cargo.lock'): ps.append(os.path.join(REPO, f))
    return _hash_files([p for p in ps if os.path.exists(p)])

def build_mirx():
    src = os.path.join(VERIF, 'mirx', 'mirx.rs')
    out = os.path.join(BUILD, 'mirx-' + _hash_files([src]))
    exe = os.path.join(out, 'mirx')
    if not os.path.exists(exe):
        os.makedirs(out, exist_ok=True)
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
        r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', exe + '.tmp', '-C', 'link-arg=-Wl,-rpath,%s/lib' % sysroot], capture_output=True, text=True)
        if r.returncode: raise ExportError('mirx does not build: ' + r.stderr[-2000:])
        os.rename(exe + '.tmp', exe)
    return exe

def export():
    """-> directory with lib.json and bin.json for the current tree (one process at a time)"""
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'export.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _export()

def _export():
    exe = build_mirx()
    out = os.path.join(BUILD, 'mir-%s-%s' % (os.path.basename(os.path.dirname(exe))[5:13], repo_hash()))
    if os.path.exists(os.path.join(out, 'ok')): return out
    tmp = out + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    tgt = os.path.join(BUILD, 'mirtarget')
    # forget earlier builds of the package itself: it must be recompiled by mirx (both layouts of cargo's build directory)
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('posidonius-'): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'posidonius'), ignore_errors=True)
    env = dict(os.environ, MIRX_OUT=tmp, RUSTC_WRAPPER=exe, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins'], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(os.path.join(tmp, 'lib.json')):
        raise ExportError('export of the MIR failed: ' + r.stderr[-3000:])
    open(os.path.join(tmp, 'ok'), 'w').write('ok')
    # keep only a few exports around
    olds = sorted((d for d in os.listdir(BUILD) if d.startswith('mir-')), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-4]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

if __name__ == '__main__':
    t = time.time(); print(export(), time.time() - t)
