"""Contracts over the exported functions, obligations, verdicts and evidence."""
import os, sys, json, time, re, random, traceback
from .terms import *
from . import terms as TM
from .values import *
from .exe import Exec, St, vget, vput, Event, merge_val
from .prover import Prover, Signs, NEG, ZER, POS, ANY, Num, Result
from .mir import Mir
from . import export as EXP
from . import stdm

VERIF = EXP.VERIF
NZ = NEG | POS
NN = POS | ZER

class V:
    """read access to a value by field names"""
    def __init__(self, mir, val, ty, name=''): self.__dict__.update(_m=mir, _v=val, _ty=ty, _n=name)
    def __getattr__(self, f):
        t = self._m.types[self._ty]
        if t['k'] == 'struct':
            for i, (n, fty) in enumerate(t['vs'][0]['f']):
                if n == f: return wrap(self._m, vget(self._v, (i,)), fty, self._n + '.' + f)
        raise AttributeError('%s has no field %s' % (t['n'], f))
    def __getitem__(self, i):
        t = self._m.types[self._ty]
        if t['k'] == 'tuple': return wrap(self._m, vget(self._v, (i,)), t['es'][i], '%s.%d' % (self._n, i))
        if t['k'] in ('array', 'slice'): return wrap(self._m, vget(self._v, (i,)), t['e'], '%s[%d]' % (self._n, i))
        if t['k'] == 'struct' and t['n'].startswith('std::vec::Vec'): return wrap(self._m, vget(self._v, (i,)), t['args'][0], '%s[%d]' % (self._n, i))
        raise TypeError(t['n'])
    def __len__(self): return len(force(self._v).f)
    @property
    def xyz(self): return (self.x, self.y, self.z)
    def variant(self):
        v = force(self._v)
        return self._m.types[self._ty]['vs'][v.d]['n'] if type(v.d) is int else v.d
    def payload(self, vn, i=0):
        t = self._m.types[self._ty]
        k = [x['n'] for x in t['vs']].index(vn)
        v = force(self._v)
        fs = t['vs'][k]['f']
        if isinstance(i, str): i = [f[0] for f in fs].index(i)
        return wrap(self._m, v.pay[k][i], fs[i][1], '%s.%s.%s' % (self._n, vn, fs[i][0]))
    def __repr__(self): return 'V(%s:%s)' % (self._n, self._m.types[self._ty]['n'])

def wrap(m, v, ty, name):
    k = m.types[ty]['k']
    if k in ('float', 'int', 'bool'): return v
    return V(m, v, ty, name)

def field_path(mir, ty, dotted):
    """'particles[1].mass' -> path tuple and type"""
    path = []
    for tok in re.findall(r'\[(\d+)\]|\.?([A-Za-z_]\w*|\d+)', dotted):
        t = mir.types[ty]
        if tok[0]:
            path.append(int(tok[0])); ty = t['e'] if 'e' in t else t['args'][0]
        elif t['k'] == 'struct':
            fs = t['vs'][0]['f']; i = [f[0] for f in fs].index(tok[1]); path.append(i); ty = fs[i][1]
        elif t['k'] == 'tuple': path.append(int(tok[1])); ty = t['es'][int(tok[1])]
        elif t['k'] == 'enum':
            k = [x['n'] for x in t['vs']].index(tok[1]); path.append(('v', k)); ty = ('variant', ty, k)
        else: raise KeyError(dotted)
        if isinstance(ty, tuple): raise KeyError('enum payload paths are not supported: ' + dotted)
    return tuple(path), ty

class Skip(Exception):
    """the contract cannot be stated for this code (an anchor is gone)"""

class Ob:
    __slots__ = ('name', 'hyps', 'goal', 'res', 'info', 'run')
    def __init__(self, name, hyps, goal, info=None, run=None): self.name = name; self.hyps = hyps; self.goal = goal; self.res = None; self.info = info; self.run = run

class Run:
    """one symbolic execution of one function under contract in one configuration"""
    def __init__(self, chk, fn, label, ov=None, signs=None, contracts=None, maxloop=64, steps=20_000_000):
        self.chk = chk; self.m = chk.mir; self.label = label
        self.F = self.m.fn(fn) if isinstance(fn, str) else fn
        if self.F is None: raise Skip('function %s not found' % fn)
        self.ov = dict(ov or {}); self.signs = signs or chk.signs
        self.ctx = Ctx(self.m, self.ov)
        self.ex = Exec(self.m, signs=self.signs, contracts=contracts, maxloop=maxloop, step_limit=steps)
        self.st = St(); self.args = []; self.roots = {}; self.fname = fn if isinstance(fn, str) else fn.name
        self.hyps = []
    def argty(self, i): return self.F.locals[1 + i]
    def root(self, name, ty=None, val=None):
        """allocate a symbolic object; returns its pointer"""
        if val is None: val = self.ctx.mk(name, ty)
        c = self.ex.new_cell(self.st, val)
        self.roots[name] = (c, ty, val)
        return Ptr(c)
    def pre(self, name):
        c, ty, val = self.roots[name]
        return wrap(self.m, val, ty, name)
    def auto_args(self, names):
        """one argument per name: references become roots, scalars symbolic values"""
        for i, n in enumerate(names):
            ty = self.argty(i); t = self.m.types[ty]
            if not isinstance(n, str): self.args.append(n); continue
            if t['k'] == 'ref':
                e = self.m.types[t['e']]
                if e['k'] == 'slice': raise Skip('slice argument needs an explicit value')
                self.args.append(self.root(n, t['e']))
            else: self.args.append(self.ctx.mk(n, ty))
        return self
    def seq(self, name, ety, n, off=0):
        """root that is an array of n elements of type ety; returns slice pointer"""
        val = Agg(tuple(self.ctx.mk('%s[%d]' % (name, i), ety) for i in range(n)))
        c = self.ex.new_cell(self.st, val)
        self.roots[name] = (c, ('seq', ety, n), val)
        return Ptr(c, (), (0, n))
    def assume(self, c):
        if c is True: return
        self.hyps.append(c); self.st.assume(c)
    def go(self):
        t0 = time.time()
        self.chk.functions.add(self.F.name)
        rs = self.ex.call_fn(self.st, self.F, self.args)
        self.results = rs
        self.chk.exec_time += time.time() - t0
        self.chk.functions_inlined |= {n for n in self.ex.called if self.m.byname.get(n) and self.m.byname[n].local}
        self.chk.std_models |= self.ex.modelled
        return self
    def states(self):
        return [(s, v) for s, v in self.results]
    def post(self, st, name):
        c, ty, val = self.roots[name]
        if isinstance(ty, tuple): return SeqV(self.m, st.cells[c], ty[1], name)
        return wrap(self.m, st.cells[c], ty, name)
    def returns_iff(self, cond, what='returns'):
        """the function returns (does not panic) exactly when cond holds"""
        R = or_(*[and_(*s.pc[len(self.st0_pc()):]) for s, v in self.results]) if self.results else False
        self.chk.ob('%s %s: returns iff %s' % (self.fname, self.label, what), self.hyps, iff(R, cond) if not (R is True and cond is True) else True, info={'kind': 'returns', 'want': cond}, run=self)
    def st0_pc(self): return tuple(self.hyps)
    def no_panic(self):
        for p in self.ex.panics:
            self.chk.ob('%s %s: no panic at %s' % (self.fname, self.label, p.where), list(p.pc), False, run=self)
    def frame(self, exp, free=(), roots=None):
        """post-state = pre-state updated by `exp` (path -> term); `free` regexes may change arbitrarily"""
        fr = re.compile('|'.join('(?:%s)' % f for f in free)) if free else None
        pref = set()
        for k in exp:
            parts = re.split(r'(?=[.\[])', k); acc = ''
            for p in parts: acc += p; pref.add(acc)
        used = set()
        for s, v in self.results:
            for n in (roots or self.roots):
                c, ty, val = self.roots[n]
                if c not in s.cells: continue
                self._diff(val, s.cells[c], ty, n, exp, pref, fr, s, used)
        miss = [k for k in exp if k not in used and any(k == r or k.startswith(r + '.') or k.startswith(r + '[') for r in (roots or self.roots))]
        if miss and self.results: raise Skip('contract mentions paths that do not exist: %s' % miss[:3])
        return self
    def ret(self, exp, name='ret'):
        """return value: exp is a term, or dict path->term; checked on every return state"""
        for s, v in self.results:
            self._ret(s, v, self.F.locals[0], exp, name)
    def _ret(self, s, v, ty, exp, name):
        if isinstance(exp, dict):
            for k, e in exp.items():
                path, ty2 = field_path(self.m, ty, k)
                self._leaf(s, name + '.' + k, vget(v, path), e)
        elif isinstance(exp, (tuple, list)):
            for i, e in enumerate(exp): self._leaf(s, '%s.%d' % (name, i), vget(v, (i,)), e)
        else: self._leaf(s, name, v, exp)
    def _leaf(self, s, name, got, want):
        g = eqv(got, want)
        self.chk.ob('%s %s: %s' % (self.fname, self.label, name), list(s.pc), g, info={'path': name, 'got': got, 'want': want}, run=self)
    def _diff(self, pre, post, ty, name, exp, pref, fr, s, used):
        if fr is not None and fr.fullmatch(name) and name not in pref: return
        if name in exp:
            used.add(name)
            want = exp[name]
            self._cmp(want, post, ty, name, s, fr); return
        if name not in pref:
            if pre is post: return
            if type(pre) is Lazy and type(post) is Lazy and pre.name == post.name and pre.ctx is post.ctx: return
        if isinstance(ty, tuple):    # seq
            a, b = force(pre), force(post)
            for i in range(ty[2]): self._diff(a.f[i], b.f[i], ty[1], '%s[%d]' % (name, i), exp, pref, fr, s, used)
            return
        t = self.m.types[ty]; k = t['k']
        if k in ('float', 'int', 'bool'):
            if pre is post: return
            self._leaf(s, name + ' unchanged', post, pre); return
        a, b = force(pre), force(post)
        if a is b and name not in pref: return
        if k == 'struct' and isinstance(a, VecV):
            if len(a.f) != len(b.f):
                self.chk.ob('%s %s: %s length' % (self.fname, self.label, name), list(s.pc), False, run=self); return
            for i in range(len(a.f)): self._diff(a.f[i], b.f[i], t['args'][0], '%s[%d]' % (name, i), exp, pref, fr, s, used)
        elif type(a) is MapV:
            self.chk.ob('%s %s: %s keys' % (self.fname, self.label, name), list(s.pc), set(a.d) == set(b.d), run=self)
            for q in a.d:
                if q in b.d and a.d[q] is not b.d[q]: self._leaf(s, '%s{%s} unchanged' % (name, q), b.d[q], a.d[q])
        elif k == 'struct':
            for i, (fn, fty) in enumerate(t['vs'][0]['f']): self._diff(vget(a, (i,)), vget(b, (i,)), fty, name + '.' + fn, exp, pref, fr, s, used)
        elif k == 'tuple':
            for i, e in enumerate(t['es']): self._diff(vget(a, (i,)), vget(b, (i,)), e, '%s.%d' % (name, i), exp, pref, fr, s, used)
        elif k == 'array':
            for i in range(t['len']): self._diff(vget(a, (i,)), vget(b, (i,)), t['e'], '%s[%d]' % (name, i), exp, pref, fr, s, used)
        elif k == 'enum':
            if type(a.d) is int and type(b.d) is int or a.d is b.d:
                if a.d != b.d:
                    self.chk.ob('%s %s: %s variant unchanged' % (self.fname, self.label, name), list(s.pc), False, run=self); return
                vs = [a.d] if type(a.d) is int else range(len(t['vs']))
                for vk in vs:
                    if type(a.d) is not int and isinstance(a.pay, LazyPay) and isinstance(b.pay, LazyPay) and vk not in a.pay and vk not in b.pay: continue
                    try: pa, pb = a.pay[vk], b.pay[vk]
                    except KeyError: continue
                    for i, (fn, fty) in enumerate(t['vs'][vk]['f']):
                        self._diff(pa[i], pb[i], fty, '%s.%s.%s' % (name, t['vs'][vk]['n'], fn), exp, pref, fr, s, used)
            else: self._leaf(s, name + ' variant unchanged', b.d, a.d)
        elif a is not b:
            raise Unsupported('cannot compare %s of type %s' % (name, t['n']))
    def _cmp(self, want, post, ty, name, s, fr):
        """want: term / python scalar / value tree / V"""
        if isinstance(want, V): want = want._v
        t = self.m.types[ty]; k = t['k']
        if k in ('float', 'int', 'bool'): self._leaf(s, name, post, want); return
        if isinstance(want, (tuple, list)) and k == 'struct' and len(t['vs'][0]['f']) == len(want):
            for i, (fn, fty) in enumerate(t['vs'][0]['f']): self._cmp(want[i], vget(post, (i,)), fty, name + '.' + fn, s, fr)
            return
        if isinstance(want, (tuple, list)) and k in ('array', 'tuple'):
            for i, w in enumerate(want): self._cmp(w, vget(post, (i,)), t['e'] if k == 'array' else t['es'][i], '%s[%d]' % (name, i), s, fr)
            return
        if isinstance(want, MapV) or k == 'struct' and type(force(post)) is MapV:
            b = force(post)
            self.chk.ob('%s %s: %s keys' % (self.fname, self.label, name), list(s.pc), set(want.d) == set(b.d), run=self)
            for q in want.d:
                if q in b.d: self._leaf(s, '%s{%s}' % (name, q), b.d[q], want.d[q])
            return
        # full value: compare as a tree
        self._diff(want, post, ty, name, {}, set(), fr, s, set())

class SeqV:
    def __init__(self, m, v, ety, name): self.m = m; self.v = v; self.ety = ety; self.n = name
    def __getitem__(self, i): return wrap(self.m, force(self.v).f[i], self.ety, '%s[%d]' % (self.n, i))

def eqv(got, want):
    if isinstance(want, V): want = want._v
    got = force(got); want = force(want)
    if got is want: return True
    if type(got) is T and got.sort == 'r' or type(want) is T and want.sort == 'r' or type(got) is float or isinstance(want, float):
        if not isinstance(got, (T, float, int)) or isinstance(got, bool): return False
        return same(lift(got), lift(want))
    if type(got) is bool or type(want) is bool or (type(got) is T and got.sort == 'b'):
        if type(got) is bool and type(want) is bool: return got == want
        return iff(got, want)
    if type(got) is int or type(want) is int or (type(got) is T and got.sort == 'i'):
        if type(got) is int and type(want) is int: return got == want
        return ieq(got, want)
    if type(got) is En and type(want) is En:
        g = ieq(got.d, want.d) if not (type(got.d) is int and type(want.d) is int) else got.d == want.d
        if type(want.d) is int and g is not False:
            try: pa, pb = got.pay[want.d], want.pay[want.d]
            except KeyError: return g
            for x, y in zip(pa, pb): g = and_(g, eqv(x, y))
        return g
    if isinstance(got, Agg) and isinstance(want, Agg) and len(got.f) == len(want.f):
        g = True
        for x, y in zip(got.f, want.f): g = and_(g, eqv(x, y))
        return g
    if type(got) is Ptr: return got.same(want)
    if type(got) is Str and type(want) is Str: return got.s == want.s
    return False

class Check:
    """one run of the check of one property"""
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obs = []; self.functions = set(); self.functions_inlined = set(); self.std_models = set()
        self.exec_time = 0.0; self.limits = []; self.assumptions = []; self.violations = []; self.known = []
        self.bounded = []; self.notes = []; self.samplers = []; self.signs = {}; self.backends = {}
        self.unknown = []; self.proved = 0; self.mir = None; self.replays = []
        self.prover = None; self.groups = {}; self.seen = set(); self.dup = 0
    def load(self):
        d = EXP.export()
        self.dir = d
        self.mir = Mir(os.path.join(d, 'lib.json'))
        return self
    def load_bin(self):
        return Mir(os.path.join(self.dir, 'bin.json'))
    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions: self.assumptions.append(t)
    def set_signs(self, signs):
        self.signs = signs
        self.prover = None
    def get_prover(self):
        if self.prover is None:
            self.prover = Prover(self.seed, self.signs, self.sample, points=2 if self.tier == 'quick' else 3)
            self.prover_list = getattr(self, 'prover_list', []) + [self.prover]
        return self.prover
    def sample(self, name, rng):
        for f in self.samplers:
            v = f(name, rng)
            if v is not None: return v
        return None
    def ob(self, name, hyps, goal, info=None, run=None):
        """state and immediately try to discharge one obligation"""
        key = (name, goal if not isinstance(goal, T) else goal.id, tuple(h.id if isinstance(h, T) else h for h in hyps))
        if key in self.seen: self.dup += 1; return
        self.seen.add(key)
        o = Ob(name, hyps, goal, info, run)
        if self.budget() <= 0 and goal is not True: o.res = Result('unknown', 'none', detail='time budget of the check used up')
        else:
            pv = self.get_prover(); k = len(self.unknown)
            pv.cap = 3.0 if self.violations else (30.0 if k < 3 else 10.0 if k < 10 else 3.0) * (1 if self.tier == 'quick' else 4)
            gd = getattr(getattr(run, 'ex', None), 'guide', None)
            if gd is not None and isinstance(goal, T):
                # the sample input of the case satisfies its path condition: does it satisfy the goal?
                import mpmath
                try:
                    with mpmath.workdps(60):
                        if gd(goal) is False and all(gd(h) is not False for h in hyps): o.res = Result('refuted', 'numeric', env={k: float(v) for k, v in gd.env.items() if not isinstance(v, (bool, str))})
                except (ArithmeticError, ValueError): pass
            if o.res is None: o.res = pv.prove(hyps, goal)
        self.obs.append((o.name, o.res.status, o.res.backend))
        self.backends[o.res.backend] = self.backends.get(o.res.backend, 0) + 1
        if o.res.status == 'proved': self.proved += 1
        elif o.res.status == 'refuted': self.violations.append(o)
        else: self.unknown.append(o)
        return o.res.status
    def group(self, title, f, *a, **k):
        """run one contract; tool limits are recorded, never reported as violations"""
        if len(self.violations) > 20: return False
        if self.budget() <= 0:
            self.limits.append((title, 'time budget of the check used up')); return False
        t = time.time(); n = len(self.obs)
        try:
            f(*a, **k); ok = True
        except (Unsupported, Skip, AttributeError, KeyError, IndexError, TypeError, ValueError, RecursionError, AssertionError, NotImplementedError) as e:
            self.limits.append((title, '%s: %s' % (type(e).__name__, e)))
            if os.environ.get('VERIF_DEBUG') and len(self.limits) == 1: print(traceback.format_exc()[-900:])
            ok = False
        self.groups[title] = {'obligations': len(self.obs) - n, 'seconds': round(time.time() - t, 2), 'completed': ok}
        return ok
    def budget(self):
        lim = float(os.environ.get('VERIF_BUDGET', '600' if self.tier == 'quick' else '3000'))
        return lim - (time.time() - self.t0)
    def finish_concrete(self): pass
