"""Replays counterexamples on the compiled code and triages refuted obligations.

For the function under contract a small driver is generated and compiled *inside* the module of
/repo that defines it (the guarded include! hook of that module); the counterexample becomes the
driver's JSON input, and the driver returns the real post-state."""
import fcntl
import os, json, subprocess, math, re, shutil, tempfile, hashlib, struct
from .terms import *
from . import terms as TM
from .values import *
from .exe import vget
from .prover import Num
from . import export as EXP

HOOKED = ['particles/universe', 'particles/common', 'particles/particle', 'tools', 'integrator/whfast', 'integrator/ias15', 'integrator/leapfrog', 'integrator/output',
          'effects/wind', 'effects/disk', 'effects/evolution', 'effects/general_relativity', 'effects/tides/common', 'effects/tides/constant_time_lag',
          'effects/tides/creep_coplanar', 'effects/tides/kaula', 'effects/rotational_flattening/common', 'effects/rotational_flattening/creep_coplanar', 'effects/rotational_flattening/oblate_spheroid']

class NoReplay(Exception): pass

def num(nv, t):
    t = force(t)
    if isinstance(t, (int, float, bool)): return t
    if type(t) is T: return nv(t)
    return repr(t)

class EnvDict(dict):
    def __missing__(self, k): return (TM.INT_DOM[k] or (0,))[0] if k in TM.INT_DOM else 1.0
    def __contains__(self, k): return True
    def get(self, k, d=None): return self[k]

def js(mir, v, ty, nv):
    """JSON image of a symbolic value under a valuation"""
    if isinstance(ty, tuple): return [js(mir, x, ty[1], nv) for x in force(v).f]
    t = mir.types[ty]; k = t['k']
    if type(v) is Lazy and k == 'struct' and not t['dn'].startswith('posidonius'):
        return [] if 'Vec' in t['n'] else {} if 'HashMap' in t['n'] else None
    v = force(v)
    if k == 'float':
        x = nv(v) if type(v) is T else v
        return float(x)
    if k == 'int':
        x = nv(v) if type(v) is T else v
        return int(x)
    if k == 'bool':
        return bool(nv(v)) if type(v) is T else bool(v)
    if type(v) is MapV: return {str(q): js(mir, x, t['args'][1], nv) for q, x in v.d.items()}
    if k == 'struct':
        if t['n'].startswith('std::vec::Vec'): return [js(mir, x, t['args'][0], nv) for x in v.f]
        if t['n'].startswith('std::collections::HashMap') or 'HashMap' in t['n']: return {}
        fs = t['vs'][0]['f']
        if fs and fs[0][0] == '0':
            if len(fs) == 1: return js(mir, vget(v, (0,)), fs[0][1], nv)
            return [js(mir, vget(v, (i,)), f[1], nv) for i, f in enumerate(fs)]
        return {f[0]: js(mir, vget(v, (i,)), f[1], nv) for i, f in enumerate(fs)}
    if k == 'tuple': return [js(mir, vget(v, (i,)), e, nv) for i, e in enumerate(t['es'])]
    if k == 'array': return [js(mir, vget(v, (i,)), t['e'], nv) for i in range(t['len'])]
    if k == 'enum':
        d = v.d
        if type(d) is T: d = nv(d)
        vs = t['vs'][d]
        if not vs['f']: return vs['n']
        pay = v.pay[d]
        if len(vs['f']) == 1 and vs['f'][0][0] in ('0', ''): return {vs['n']: js(mir, pay[0], vs['f'][0][1], nv)}
        if vs['f'][0][0] == '0': return {vs['n']: [js(mir, p, f[1], nv) for p, f in zip(pay, vs['f'])]}
        return {vs['n']: {f[0]: js(mir, p, f[1], nv) for p, f in zip(pay, vs['f'])}}
    raise NoReplay('no JSON image for type %s' % t['n'])

def rust_ty(mir, ty):
    t = mir.types[ty]; k = t['k']
    if k in ('float', 'int', 'bool'): return t['n']
    if k == 'tuple': return '(%s)' % ', '.join(rust_ty(mir, e) + ',' for e in t['es'])
    if k == 'array': return '[%s; %d]' % (rust_ty(mir, t['e']), t['len'])
    if k in ('struct', 'enum'):
        n = t['n']
        if n.startswith('std::vec::Vec'): return 'Vec<%s>' % rust_ty(mir, t['args'][0])
        if 'HashMap' in n: return 'std::collections::HashMap<usize, f64>'
        last = re.sub(r'<.*', '', n).split('::')[-1]
        if last == 'CoordinatesType': return 'crate::whfast::CoordinatesType'
        return 'crate::' + last
    raise NoReplay('type %s' % t['n'])

def module_of(name):
    m = re.match(r'<posidonius::([\w:]+)::(\w+) as posidonius::[\w:]+::(\w+)>::(\w+)$', name)
    if m:
        if m.group(1).replace('::', '/') not in HOOKED: raise NoReplay('no hook in the module of %s' % name)
        return m.group(1).replace('::', '/'), ['<%s as crate::%s>' % (m.group(2), m.group(3)), m.group(4)]
    segs = name.split('::')
    if segs[0] == 'posidonius': segs = segs[1:]
    for i in range(len(segs), 0, -1):
        if '/'.join(segs[:i]) in HOOKED: return '/'.join(segs[:i]), segs[i:]
    raise NoReplay('no hook in the module of %s' % name)

def gen(mir, F, argspec):
    """driver source for one function; argspec: list of ('ref'|'slice'|'val'|'lit', type/literal)"""
    mod, rest = module_of(F.name)
    L = ['#[no_mangle]', 'pub fn posidonius_verif_run(input: &str) -> String {',
         '  let a: Vec<serde_json::Value> = serde_json::from_str(input).unwrap();']
    call = []; outs = []
    for i, (k, x) in enumerate(argspec):
        if k == 'lit': call.append(x); outs.append('serde_json::Value::Null'); continue
        L.append('  let mut a%d: %s = serde_json::from_value(a[%d].clone()).unwrap();' % (i, x[0], i))
        if k == 'ref': call.append(('&mut a%d' if x[1] else '&a%d') % i)
        elif k == 'slice': call.append(('&mut a%d[..]' if x[1] else '&a%d[..]') % i)
        else: call.append('a%d.clone()' % i)
        outs.append('serde_json::to_value(&a%d).unwrap_or(serde_json::Value::Null)' % i)
    path = '::'.join(rest)
    rt = mir.types[F.locals[0]]['n']
    retj = '(match &v { Ok(x) => serde_json::json!({"Ok": serde_json::to_value(x).unwrap_or(serde_json::Value::Null)}), Err(_) => serde_json::json!({"Err": 0}) })' if rt.startswith('std::result::Result') else 'serde_json::to_value(&v).unwrap_or(serde_json::Value::Null)'
    L.append('  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| %s(%s)));' % (path, ', '.join(call)))
    L.append('  match r { Ok(v) => { let o = vec![%s]; serde_json::to_string(&serde_json::json!({"ret": %s, "args": o})).unwrap() }' % (', '.join(outs), retj))
    L.append('    Err(_) => { let o: Vec<serde_json::Value> = vec![%s]; serde_json::to_string(&serde_json::json!({"panic": true, "args": o})).unwrap() } }' % ', '.join(outs))
    L.append('}')
    return mod, '\n'.join(L)

MAIN = '''extern crate posidonius;
extern "Rust" { fn posidonius_verif_run(input: &str) -> String; }
use std::io::{Read, BufRead, Write};
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let _keep = posidonius::constants::G;
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin(); let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let l = line.unwrap();
        if l.trim().is_empty() { continue; }
        let r = std::panic::catch_unwind(|| unsafe { posidonius_verif_run(&l) }).unwrap_or_else(|_| "{\\"harness_error\\": true}".to_string());
        let mut o = out.lock(); writeln!(o, "RESULT {}", r).unwrap();
    }
}
'''

def build_driver(mod, src, names=None):
    """compile the driver into /repo's crate (through the hook) -> executable"""
    hooks = os.path.join(EXP.BUILD, 'hooks'); hd = os.path.join(EXP.BUILD, 'harness')
    os.makedirs(hooks, exist_ok=True); os.makedirs(os.path.join(hd, 'src'), exist_ok=True)
    files = {mod: src} if isinstance(mod, str) else mod
    for h in HOOKED:
        p = os.path.join(hooks, h.replace('/', '_') + '.rs'); txt = files.get(h, '')
        if not os.path.exists(p) or open(p).read() != txt: open(p, 'w').write(txt)
    toml = '[package]\nname = "vharness"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\nposidonius = { path = "%s" }\nserde_json = "1.0.*"\n\n[profile.dev]\nopt-level = 0\ndebug = false\noverflow-checks = false\n\n[workspace]\n' % EXP.REPO
    p = os.path.join(hd, 'Cargo.toml')
    if not os.path.exists(p) or open(p).read() != toml: open(p, 'w').write(toml)
    if not os.path.exists(os.path.join(hd, 'Cargo.lock')): shutil.copy(os.path.join(EXP.REPO, 'Cargo.lock'), os.path.join(hd, 'Cargo.lock'))
    p = os.path.join(hd, 'src', 'main.rs')
    if not os.path.exists(p) or open(p).read() != MAIN: open(p, 'w').write(MAIN)
    env = dict(os.environ, RUSTFLAGS='--cfg posidonius_verif', POSIDONIUS_VERIF_HOOKS=hooks, CARGO_TARGET_DIR=os.path.join(EXP.BUILD, 'htarget'))
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=hd, env=env, capture_output=True, text=True)
    if r.returncode: raise NoReplay('driver does not build: ' + r.stderr[-1500:])
    return os.path.join(EXP.BUILD, 'htarget', 'debug', 'vharness')

class Driver:
    def __init__(self, mir, F, argspec):
        mod, src = gen(mir, F, argspec)
        with open(os.path.join(EXP.BUILD, 'replay.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._make(build_driver, mod, src)
    def _make(self, build_driver, mod, src):
        exe = build_driver(mod, src)
        self.dir = tempfile.mkdtemp(prefix='vharness.')
        os.makedirs(os.path.join(self.dir, 'input')); open(os.path.join(self.dir, 'input', 'empty.dat'), 'w').close()
        self.exe = os.path.join(self.dir, 'vharness'); shutil.copy(exe, self.exe)
    def call(self, args):
        hist = os.path.join(self.dir, 'history.bin')
        if os.path.exists(hist): os.unlink(hist)
        r = subprocess.run([self.exe], cwd=self.dir, input=json.dumps(args) + '\n', capture_output=True, text=True, timeout=60)
        for l in r.stdout.splitlines():
            if l.startswith('RESULT '):
                d = json.loads(l[7:])
                d['history'] = open(hist, 'rb').read() if os.path.exists(hist) else b''
                return d
        raise NoReplay('driver gave no result: ' + r.stderr[-300:])
    def batch(self, many, timeout=120):
        r = subprocess.run([self.exe], cwd=self.dir, input=''.join(json.dumps(a) + '\n' for a in many), capture_output=True, text=True, timeout=timeout)
        return [json.loads(l[7:]) for l in r.stdout.splitlines() if l.startswith('RESULT ')]
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def argspec(run):
    mir = run.m; spec = []
    for i, a in enumerate(run.args):
        ty = run.argty(i); t = mir.types[ty]
        if t['k'] == 'ref':
            e = mir.types[t['e']]; mut = bool(t.get('m'))
            if 'BufWriter' in e['n'] and isinstance(a, Opq):
                spec.append(('lit', '&mut std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open("history.bin").unwrap())')); continue
            if not isinstance(a, Ptr): raise NoReplay('argument %d' % i)
            if e['k'] == 'slice': spec.append(('slice', ('Vec<%s>' % rust_ty(mir, e['e']), mut)))
            else: spec.append(('ref', (rust_ty(mir, t['e']), mut)))
        elif t['k'] == 'enum' and all(not v['f'] for v in t['vs']):
            v = force(a)
            if type(v.d) is not int: raise NoReplay('symbolic enum argument')
            spec.append(('lit', '%s::%s' % (rust_ty(mir, ty), t['vs'][v.d]['n'])))
        else: spec.append(('val', (rust_ty(mir, ty), False)))
    return spec

def jargs(run, nv):
    mir = run.m; out = []; pos = {}
    cells = {c: (n, ty, val) for n, (c, ty, val) in run.roots.items()}
    for i, a in enumerate(run.args):
        ty = run.argty(i); t = mir.types[ty]
        if isinstance(a, Opq): out.append(None)
        elif t['k'] == 'ref':
            if a.cell not in cells: raise NoReplay('argument %d is not a root' % i)
            n, rty, val = cells[a.cell]
            if a.path: raise NoReplay('argument %d points inside %s' % (i, n))
            out.append(js(mir, val, rty, nv)); pos[n] = i
        elif t['k'] == 'enum' and all(not v['f'] for v in t['vs']): out.append(None)
        else: out.append(js(mir, a, ty, nv))
    return out, pos

def jget(j, path):
    """value at a dotted contract path in a JSON document"""
    for tok in re.findall(r'\[(\d+)\]|\{([^}]*)\}|\.([A-Za-z_0-9]\w*)', path):
        if tok[0]: j = j[int(tok[0])]
        elif tok[1]: j = j[tok[1]]
        elif isinstance(j, list): j = j[int(tok[2])]
        else: j = j[tok[2]]
    return j

def replay(c, o, cache):
    """True: the compiled code shows the violation; False: the compiled code meets the contract here; None: not decided"""
    run = o.run
    if run is None or o.res.env is None: return None, 'no counterexample'
    if getattr(run, 'no_replay', False): return None, 'the contract abstracts callees; not replayable as a single call'
    env = EnvDict(o.res.env)
    nv = Num(env, 'float')
    args, pos = jargs(run, nv)
    key = (run.F.name, repr(argspec(run)))
    if key not in cache: cache[key] = Driver(c.mir, run.F, argspec(run))
    r = cache[key].call(args)
    if 'harness_error' in r: return None, 'the harness could not build the input'
    info = o.info or {}
    if info.get('kind') == 'returns':
        want = bool(nv(info['want'])) if type(info['want']) is T else info['want']
        real = not r.get('panic', False)
        return real != want, {'input': args, 'compiled code': 'returns' if real else 'panics', 'contract requires': 'returns' if want else 'panics'}
    if info.get('kind') == 'goal' and not r.get('panic'):
        # re-evaluate a relational goal over the real post-state
        return None, 'relational obligation'
    if 'path' not in info: return None, 'relational obligation'
    if r.get('panic'): return None, 'the compiled code panics on the counterexample'
    root = re.match(r'\w+', info['path']).group(0)
    if root in ('history', 'written'):
        h = r['history']; want = num(nv, info['want']); d = {'input': args, 'path': info['path'], 'contract requires': want}
        if root == 'written': d['compiled code writes bytes'] = len(h); return (len(h) > 0) != bool(want), d
        size = struct.calcsize('<' + info['layout']); d.update({'bytes written': len(h), 'bytes required': size})
        if len(h) != size: return True, d
        k = re.search(r'\[(\d+)\]', info['path'])
        if not k: return None, d
        real = struct.unpack('<' + info['layout'], h)[int(k.group(1))]; d['compiled code'] = real
        if real != real: return (True if want == want else None), d
        return abs(real - want) > 1e-7 * max(abs(real), abs(want)), d
    if info['path'] in ('ret.Err', 'ret.Ok'):
        want = bool(num(nv, info['want'])); real = ('Err' in r['ret']) if info['path'] == 'ret.Err' else r['ret'].get('Ok')
        return real != want, {'input': args, 'path': info['path'], 'compiled code': real, 'contract requires': want}
    rest = info['path'][len(root):].split(' ')[0]
    doc = r['ret'] if root == 'ret' else r['args'][pos[root]]
    real = jget(doc, rest)
    got, want = num(nv, info['got']), num(nv, info['want'])
    d = {'input': args, 'path': info['path'], 'compiled code': real, 'contract requires': want, 'engine predicted': got}
    if isinstance(real, bool) or isinstance(want, bool) or isinstance(real, str): return (real != want), d
    if real is None: return (True if isinstance(want, float) and want == want else None), d      # NaN or infinite in the compiled code
    e = abs(real - want); w = max(abs(want), abs(got), abs(real))
    if e > 1e-7 * w and abs(real - got) < 0.5 * e: return True, d
    if e <= 1e-3 * abs(got - want) and abs(real - got) > 0.5 * abs(got - want): return False, d
    return None, d

def triage(c, obs):
    out = []; cache = {}; n = 0; c.disagreements = []
    byfn = {}
    for o in obs:
        d = {'obligation': o.name, 'replayed': False, 'backend': o.res.backend, 'counterexample': {k: v for k, v in sorted((o.res.env or {}).items())} if o.res.env else None}
        if o.info and 'got' in o.info and o.res.env is not None:
            try:
                nv = Num(EnvDict(o.res.env), 'float')
                d['code_gives'] = num(nv, o.info['got']); d['contract_requires'] = num(nv, o.info['want'])
            except Exception as e: d['eval_error'] = str(e)
        d['verifier_output'] = 'obligation refuted by %s %s' % (o.res.backend, o.res.detail or '')
        conf = sum(1 for x in out if x['replayed'])
        if conf < 2 and n < 6:
            n += 1
            try: v, det = replay(c, o, cache)
            except Exception as e: v, det = None, '%s: %s' % (type(e).__name__, e)
            d['replay'] = det
            if v is True: d['replayed'] = True
            if v is False:
                c.disagreements.append({'obligation': o.name, 'detail': det}); continue
        out.append(d)
    for dr in cache.values(): dr.close()
    for w in getattr(c, 'witnesses', [])[:3]:     # failing inputs of the compiled code, found by the bounded part of the check
        out.append(dict(w, replayed=True))
    return sorted(out, key=lambda d: not d['replayed'])[:40]
