"""Back ends that discharge obligations (hyps |- goal) over the reals.

1. `pit`: enumerates every sign valuation of the comparison atoms met by the obligation
   and decides each equation in the goal by polynomial identity testing over GF(p^2),
   p = 2^61-1 (Schwartz-Zippel; sqrt is a genuine square root of its argument, sin/cos a
   point of the unit circle, sinh/cosh a point of the unit hyperbola, any other function
   an uninterpreted function of its argument's residues).
2. `z3`: leaves of that enumeration that fail are handed to z3 (nonlinear real arithmetic,
   uninterpreted functions) which may show the valuation infeasible.
3. `numeric`: 40-digit evaluation at sampled points, used only to *refute*.
"""
import random, math, hashlib, time
from fractions import Fraction
from .terms import *
from . import terms as TM

P = (1 << 61) - 1
class Resample(Exception): pass
class TooMany(Exception): pass

# -------- GF(p^2): int when in GF(p), else (re, im), im != 0
def f_mk(a, b): return a if b == 0 else (a, b)
def f_add(x, y):
    if type(x) is int and type(y) is int: return (x + y) % P
    a, b = x if type(x) is tuple else (x, 0); c, d = y if type(y) is tuple else (y, 0)
    return f_mk((a + c) % P, (b + d) % P)
def f_neg(x):
    if type(x) is int: return (-x) % P
    return ((-x[0]) % P, (-x[1]) % P)
def f_sub(x, y):
    if type(x) is int and type(y) is int: return (x - y) % P
    return f_add(x, f_neg(y))
def f_mul(x, y):
    if type(x) is int:
        if type(y) is int: return x * y % P
        return f_mk(x * y[0] % P, x * y[1] % P)
    if type(y) is int: return f_mk(x[0] * y % P, x[1] * y % P)
    return f_mk((x[0]*y[0] - x[1]*y[1]) % P, (x[0]*y[1] + x[1]*y[0]) % P)
def f_inv(x):
    if type(x) is int:
        if x == 0: raise Resample('division by zero')
        return pow(x, P - 2, P)
    n = pow((x[0]*x[0] + x[1]*x[1]) % P, P - 2, P)
    return f_mk(x[0]*n % P, (-x[1])*n % P)
def _sq(n):
    r = pow(n, (P + 1) // 4, P)
    return r if r * r % P == n else None
def f_sqrt(x):
    if type(x) is int:
        if x == 0: return 0
        r = _sq(x)                 # the root that is itself a square: multiplicative, like the positive root
        if r is not None: return r
        r = _sq(P - x)
        return (0, r if x <= pow(x, P - 2, P) else P - r)      # root of 1/x is 1/root
    a, b = x
    s = _sq((a*a + b*b) % P)
    if s is None: raise Resample('no square root')
    h = (P + 1) // 2
    t = (a + s) * h % P
    r = _sq(t)
    if r is None:
        t = (a - s) * h % P
        r = _sq(t)
    if r is None or r == 0: raise Resample('no square root')
    y = b * pow(2 * r, P - 2, P) % P
    z = (r, y); w = f_neg(z)
    return min(z, w)
def f_canon(v):
    """(canonical of {v,-v}, flipped)"""
    w = f_neg(v)
    kv = v if type(v) is tuple else (v, 0); kw = w if type(w) is tuple else (w, 0)
    return (v, False) if kv <= kw else (w, True)

NEG, ZER, POS = 1, 2, 4
ANY = 7
def _negs(s): return ((s & 1) << 2) | (s & 2) | ((s & 4) >> 2)
def _muls(a, b):
    r = 0
    for i, x in ((1, -1), (2, 0), (4, 1)):
        if a & i:
            for j, y in ((1, -1), (2, 0), (4, 1)):
                if b & j: r |= {-1: 1, 0: 2, 1: 4}[x * y]
    return r
def _adds(a, b):
    r = 0
    for i, x in ((1, -1), (2, 0), (4, 1)):
        if a & i:
            for j, y in ((1, -1), (2, 0), (4, 1)):
                if b & j:
                    if x == 0: r |= j
                    elif y == 0: r |= i
                    elif x == y: r |= i
                    else: r = 7
    return r

class Signs:
    """structural sign inference; env: variable name -> sign mask"""
    def __init__(self, env): self.env = env; self.memo = {}
    def of(self, t):
        m = self.memo
        if t.id in m: return m[t.id]
        for n in reach(t):
            if n.id not in m and n.sort == 'r': m[n.id] = self._of(n)
        return m[t.id]
    def _of(self, n):
        m = self.memo; o = n.op
        if o == 'c': return POS if n.a[0] > 0 else NEG if n.a[0] < 0 else ZER
        if o == 'v':
            e = self.env
            return (e(n.a[0]) if callable(e) else e.get(n.a[0])) or ANY
        if o == '+': return _adds(m[n.a[0].id], m[n.a[1].id])
        if o == '-':
            x, y = n.a
            r = _adds(m[x.id], _negs(m[y.id]))
            return r
        if o == 'neg': return _negs(m[n.a[0].id])
        if o == '*':
            if n.a[0] is n.a[1]:
                s = m[n.a[0].id]
                return (ZER if s & ZER else 0) | (POS if s & 5 else 0)
            return _muls(m[n.a[0].id], m[n.a[1].id])
        if o == '/': return _muls(m[n.a[0].id], m[n.a[1].id])   # denominators are nonzero
        if o == 'ite': return m[n.a[1].id] | m[n.a[2].id]
        if o == 'f':
            f = n.a[0]
            if f == 'sqrt':
                s = m[n.a[1].id]
                return POS if s == POS else (ZER if s == ZER else POS | ZER)
            if f == 'abs':
                s = m[n.a[1].id]
                return (ZER if s & ZER else 0) | (POS if s & 5 else 0)
            if f in ('exp', 'cosh'): return POS
            if f == 'acos': return POS | ZER
            if f == 'pow': return POS if m[n.a[1].id] == POS else POS | ZER
            if f in ('sinh', 'tanh', 'atan', 'cbrt', 'asinh'): return m[n.a[1].id]
            s = FN_SIGN.get(f)
            if s: return s
        return ANY
FN_SIGN = {}

class Point:
    """one random evaluation point of the identity test"""
    def __init__(self, rng, signs, maxleaves=4096):
        self.rng = rng; self.salt = rng.getrandbits(64)
        self.vals = {}; self.base = {}; self.signs = signs; self.maxleaves = maxleaves
        self.impure = {}
    def h(self, *k):
        d = hashlib.blake2b(repr((self.salt,) + k).encode(), digest_size=16).digest()
        return int.from_bytes(d, 'little') % P
    def impurity(self, roots):
        im = self.impure
        for n in reach(*roots):
            if n.id in im: continue
            if n.op in ('ite', 'lt', 'eq', 'bv', 'iv', 'ieq', 'iite'): im[n.id] = True
            else: im[n.id] = any(im[k.id] for k in kids(n))
    # decision DFS
    def leaves(self, roots, run):
        """run(ev) is called once per valuation; returns False to stop"""
        self.impurity(roots)
        dec = []; count = 0
        while True:
            self.dec = dec; self.pos = 0; self.memo = {}; self.sg = {}; self.bv = {}; self.info = []
            count += 1
            if count > self.maxleaves: raise TooMany()
            try:
                if run() is False: return count
            except Prune: pass
            while dec and not dec[-1][1]: dec.pop()
            if not dec: return count
            dec[-1][0] = dec[-1][1].pop(0)
    def ev_partial(self, t):
        self.partial = True
        try: return self.ev(t)
        except Undecided: return None
        except Resample: return None
        finally: self.partial = False
    partial = False
    def choose(self, opts):
        if self.partial: raise Undecided()
        if self.pos < len(self.dec): v = self.dec[self.pos][0]
        else:
            opts = list(opts)
            if not opts: raise Prune()
            self.dec.append([opts[0], opts[1:]]); v = opts[0]
        self.pos += 1
        return v
    def sign(self, d, term, fl=False):
        """sign of the real with residue d; term: thunk for sign inference"""
        if d == 0: return 0
        k, fl = f_canon(d)
        m = self.signs.of(term) if term is not None else ANY
        if fl: mm = _negs(m)
        else: mm = m
        if k in self.sg:
            s = self.sg[k]
            if not mm & {-1: 1, 0: 2, 1: 4}[s]: raise Prune()
        else:
            s = self.choose([x for x, b in ((1, 4), (-1, 1), (0, 2)) if mm & b])
            self.sg[k] = s
            self.info.append((term, -s if fl else s))
        return -s if fl else s
    def ev(self, root):
        if not isinstance(root, T): return root
        base, memo, imp = self.base, self.memo, self.impure
        st = [root]
        while st:
            n = st[-1]; i = n.id
            if i in base or i in memo: st.pop(); continue
            tgt = memo if imp[i] else base
            o = n.op
            def get(x):
                j = x.id
                v = base.get(j)
                return v if v is not None else memo.get(j)
            if o == 'ite' or o == 'bite' or o == 'iite':
                c = get(n.a[0])
                if c is None: st.append(n.a[0]); continue
                b = n.a[1] if c else n.a[2]
                if not isinstance(b, T): tgt[i] = b; st.pop(); continue
                if o == 'ite' and not c and n.a[0].op == 'lt' and isinstance(n.a[1], T):
                    # where the compared operands are equal and are themselves the two branches (min, max), either branch has the value: take a canonical one
                    p, q = get(n.a[0].a[0]), get(n.a[0].a[1])
                    if p is not None and q is not None and self.sign(f_sub(p, q), sub(n.a[0].a[0], n.a[0].a[1])) == 0 and p != q:
                        x, y = get(n.a[1]), get(n.a[2])
                        if x is None: st.append(n.a[1]); continue
                        if y is None: st.append(n.a[2]); continue
                        if (x, y) in ((p, q), (q, p)):
                            tgt[i] = min(p, q, key=repr); st.pop(); continue
                v = get(b)
                if v is None: st.append(b); continue
                tgt[i] = v; st.pop(); continue
            if o == 'and':
                done = None
                for k in n.a:
                    v = get(k)
                    if v is None: st.append(k); done = 'push'; break
                    if v is False: done = False; break
                if done == 'push': continue
                tgt[i] = True if done is None else False
                st.pop(); continue
            need = [k for k in kids(n) if get(k) is None]
            if need: st.extend(need); continue
            tgt[i] = self.node(n, get); st.pop()
        v = base.get(root.id)
        return v if v is not None else memo[root.id]
    def node(self, n, get):
        o = n.op; a = n.a
        if o == '+': return f_add(get(a[0]), get(a[1]))
        if o == '*': return f_mul(get(a[0]), get(a[1]))
        if o == '-': return f_sub(get(a[0]), get(a[1]))
        if o == 'neg': return f_neg(get(a[0]))
        if o == '/': return f_mul(get(a[0]), f_inv(get(a[1])))
        if o == 'c':
            f = a[0]
            return f.numerator * pow(f.denominator, P - 2, P) % P if f.denominator != 1 else f.numerator % P
        if o == 'v':
            v = self.vals.get(a[0])
            if v is None:
                v = self.h('v', a[0])
                if self.signs is not None and self.signs.of(n) == POS: v = v * v % P       # positive variables are squares, so roots of their powers are the positive ones
                self.vals[a[0]] = v
            return v
        if o == 'f': return self.func(a[0], [get(x) for x in a[1:]], a[1:])
        if o == 'lt': return self.sign(f_sub(get(a[0]), get(a[1])), sub(a[0], a[1])) < 0
        if o == 'eq': return self.sign(f_sub(get(a[0]), get(a[1])), sub(a[0], a[1])) == 0
        if o == 'same': return f_sub(get(a[0]), get(a[1])) == 0
        if o == 'not': return not get(a[0])
        if o == 'iff': return get(a[0]) == get(a[1])
        if o == 'bv' or o == 'iv':
            if a[0] not in self.bv:
                self.bv[a[0]] = self.choose((True, False) if o == 'bv' else TM.INT_DOM[a[0]])
                self.info.append((n, self.bv[a[0]]))
            return self.bv[a[0]]
        if o == 'ic': return a[0]
        if o == 'ieq': return get(a[0]) == get(a[1])
        raise ValueError(o)
    def func(self, f, xs, ts):
        if f == 'sqrt': return f_sqrt(xs[0])
        if f in ('sin', 'cos', 'tan'):
            k, fl = f_canon(xs[0])
            t = self.h('circ', k)
            i = f_inv((1 + t * t) % P)
            c = (1 - t * t) * i % P; s = 2 * t * i % P
            if fl: s = f_neg(s)
            return s if f == 'sin' else c if f == 'cos' else f_mul(s, f_inv(c))
        if f in ('sinh', 'cosh', 'exp', 'tanh'):
            k, fl = f_canon(xs[0])
            e = self.h('exp', k); ei = f_inv(e)
            if fl: e, ei = ei, e
            h = (P + 1) // 2
            s, c = (e - ei) * h % P, (e + ei) * h % P
            return e if f == 'exp' else s if f == 'sinh' else c if f == 'cosh' else f_mul(s, f_inv(c))
        if f == 'abs':
            s = self.sign(xs[0], ts[0])
            return xs[0] if s >= 0 else f_neg(xs[0])
        if f in ('atan', 'asin', 'asinh', 'atanh'):
            k, fl = f_canon(xs[0])
            v = self.h(f, k)
            return f_neg(v) if fl else v
        return self.h(f, *xs)

class OpaquePoint(Point):
    """every choice (conditional, comparison, absolute value) is an uninterpreted function of its operands' residues;
    an identity that holds under this reading holds for every valuation"""
    def __init__(self, rng, signs):
        Point.__init__(self, rng, signs); self.memo = {}
    def evo(self, root):
        m = self.memo
        if root.id in m: return m[root.id]
        st = [root]
        while st:
            n = st[-1]
            if n.id in m: st.pop(); continue
            need = [k for k in kids(n) if k.id not in m]
            if need: st.extend(need)
            else: m[n.id] = self.onode(n); st.pop()
        return m[root.id]
    def onode(self, n):
        o = n.op; a = n.a; m = self.memo
        get = lambda x: m[x.id] if isinstance(x, T) else x
        if o in ('lt', 'eq'): return self.h(o, f_sub(get(a[0]), get(a[1]))) if o == 'lt' else self.h('eq', f_canon(f_sub(get(a[0]), get(a[1])))[0])
        if o == 'ite' and a[0].op == 'lt':
            p, q = get(a[0].a[0]), get(a[0].a[1])
            if (get(a[1]), get(a[2])) in ((p, q), (q, p)): return self.h('min' if get(a[1]) == p else 'max', *sorted((p, q), key=repr))
        if o == 'ite': return self.oite(a[0], get(a[1]), get(a[2]), get)
        if o in ('bite', 'iite', 'not', 'iff', 'ieq', 'and'): return self.h(o, *[get(x) for x in a])
        if o in ('bv', 'iv'): return self.h(o, a[0])
        if o == 'same': return f_sub(get(a[0]), get(a[1])) == 0
        if o == 'f' and a[0] == 'abs': return self.h('abs', f_canon(get(a[1]))[0])
        return self.node(n, get)

    def oite(self, c, x, y, get):
        """a choice on a compound condition is the tree of choices on its parts"""
        if x == y: return x
        if not isinstance(c, T): return x if c else y
        if c.op == 'not': return self.oite(c.a[0], y, x, get)
        if c.op == 'and':
            r = x
            for k in reversed(c.a): r = self.oite(k, r, y, get)
            return r
        if c.op == 'bite': return self.oite(c.a[0], self.oite(c.a[1], x, y, get), self.oite(c.a[2], x, y, get), get)
        return self.h('ite', get(c), x, y)

class Diff(list):
    def __init__(self, v, idx): list.__init__(self, v); self.idx = idx

class Sem:
    """values of terms at a few random points, with choices uninterpreted: decides comparisons of operands that are
    identically equal, differ by a constant, or repeat (up to sign) a difference already decided on the path"""
    N = 4
    def __init__(self, seed=77):
        self.rng = random.Random(seed); self.pts = []; self.facts = {}; self.ckeys = {}
    def point(self, k):
        while len(self.pts) <= k: self.pts.append(OpaquePoint(random.Random(self.rng.getrandbits(64)), None))
        return self.pts[k]
    def diff(self, a, b):
        """the difference at the first points where it has a value"""
        out = []; idx = []
        for k in range(4 * self.N):
            p = self.point(k)
            try: out.append(f_sub(p.evo(a), p.evo(b)))
            except Resample: continue
            except (ValueError, TypeError): return None
            idx.append(k)
            if len(out) == self.N: return Diff(out, tuple(idx))
        return None
    def mask(self, d):
        """signs the difference can have, from the difference alone"""
        if all(x == 0 for x in d): return ZER
        if all(x == d[0] for x in d) and type(d[0]) is int:
            q = _rat(d[0])
            if q is not None: return POS if q > 0 else NEG
        return ANY
    def key(self, d):
        k, fl = f_canon(d[0])
        return (k, tuple(f_neg(x) if fl else x for x in d[1:]), d.idx), fl
    def fact(self, known, d):
        """signs allowed by the facts of the path"""
        m = self.facts.get(id(known))
        if m is None or m[0] is not known:
            t = {}
            for c, v in known.items():
                if c.op not in ('lt', 'eq'): continue
                kf = self.ckeys.get(c.id, 0)
                if kf == 0:
                    e = self.diff(c.a[0], c.a[1])
                    kf = self.ckeys[c.id] = None if e is None else self.key(e)
                if kf is None: continue
                k, fl = kf
                s = (NEG if v else POS | ZER) if c.op == 'lt' else (ZER if v else NEG | POS)
                t[k] = t.get(k, ANY) & (_negs(s) if fl else s)
            if len(self.facts) > 64: self.facts.clear()
            m = self.facts[id(known)] = (known, t)
        k, fl = self.key(d)
        s = m[1].get(k, ANY)
        return _negs(s) if fl else s

def _rat(r, B=1 << 24):
    """small rational with residue r, if there is one"""
    a0, a1, b0, b1 = P, r, 0, 1
    while a1 > B:
        q = a0 // a1
        a0, a1 = a1, a0 - q * a1; b0, b1 = b1, b0 - q * b1
    if b1 == 0 or abs(b1) > B: return None
    return Fraction(a1, b1)

class Prune(Exception): pass
class Undecided(Exception): pass

class Result:
    def __init__(self, status, backend, leaves=0, env=None, detail=None):
        self.status = status; self.backend = backend; self.leaves = leaves; self.env = env; self.detail = detail
    def __repr__(self): return '<%s by %s leaves=%d>' % (self.status, self.backend, self.leaves)

def _windows(hyps):
    """the intervals that the hypotheses of the form (variable < constant) and the like put the variables in"""
    w = {}
    def go(h, pos):
        if not isinstance(h, T): return
        if h.op == 'not': return go(h.a[0], not pos)
        if h.op == 'and' and pos:
            for x in h.a: go(x, True)
            return
        if h.op not in ('lt', 'eq') or len(h.a) != 2: return
        a, b = h.a; eq = h.op == 'eq'
        if eq and not pos: return
        for x, y, up in ((a, b, True), (b, a, False)):
            if isinstance(x, T) and isinstance(y, T) and x.op == 'v' and y.op == 'c':
                v = float(y.a[0]); lo, hi = w.get(x.a[0], (None, None))
                if eq: lo = hi = v
                elif up == pos: hi = v if hi is None else min(hi, v)
                else: lo = v if lo is None else max(lo, v)
                w[x.a[0]] = (lo, hi)
    for h in hyps: go(h, True)
    return w
def _within(x, w, rng):
    lo, hi = w
    if (lo is None or x >= lo) and (hi is None or x <= hi): return x
    if lo is None: return hi - abs(hi) * rng.random()
    if hi is None: return lo + (abs(lo) or 1.0) * rng.random()
    return lo if lo == hi else lo + (hi - lo) * (1 - rng.random())
class Prover:
    def __init__(self, seed=1, signs=None, sampler=None, maxleaves=4096, points=2, z3ms=4000):
        self.seed = seed; self.signs_env = signs or {}; self.sampler = sampler
        self.maxleaves = maxleaves; self.points = points; self.z3ms = z3ms
        self.cap = 30.0; self.z3time = 0.0; self.pittime = 0.0; self.numtime = 0.0
    def fresh_point(self, k):
        pts = self.__dict__.setdefault('_pts', {})
        if k not in pts: pts[k] = Point(random.Random(repr(('prover', self.seed, k))), self.sg, self.maxleaves)
        pts[k].maxleaves = self.maxleaves
        return pts[k]
    def prove(self, hyps, goal, tries=300):
        """hyps |- goal.  The sign valuations enumerated are those the goal itself depends on;
        hypotheses are consulted at failing leaves (three-valued, then z3)."""
        hyps = [h for h in hyps if h is not True]
        if goal is True: return Result('proved', 'syntactic')
        if any(h is False for h in hyps): return Result('proved', 'vacuous')
        t0 = time.time()
        if not hasattr(self, 'sg'): self.sg = Signs(self.signs_env)
        total = 0; fails = []; ok = True; done = 0; k = 0
        if self.opaque(goal):
            self.pittime += time.time() - t0
            return Result('proved', 'pit')
        uv = self.univariate(hyps, goal)
        if uv is True: return Result('proved', 'univariate')
        if uv is not None: return Result('refuted', 'univariate', env=uv)
        pr = self.prop(hyps, goal)
        if pr is True:
            self.pittime += time.time() - t0
            return Result('proved', 'pit+sat')
        if isinstance(pr, list): fails = [pr]; ok = False; done = self.points
        if pr is None and self.linear(hyps, goal):
            t1 = time.time()
            self.z3ms, ms = 30000, self.z3ms
            r, env = self.z3leaf(hyps, goal, [])
            self.z3ms = ms; self.z3time += time.time() - t1
            if r == 'unsat': return Result('proved', 'z3')
            if r == 'sat' and env is not None and self.confirm(hyps, goal, env): return Result('refuted', 'z3', env=env)
        if done < self.points and not (goal is False):
            # a violated obligation usually fails at the first samples
            r = self.refute(hyps, goal, [], 12)
            if r is not None: return Result('refuted', 'numeric', total, env=r)
        tend = time.time() + self.cap
        try:
            while done < self.points:
                if k > 200: raise TooMany()
                pt = self.fresh_point(k); k += 1
                fl = []
                roots = [t for t in list(hyps) + [goal] if isinstance(t, T)]
                def run():
                    if time.time() > tend: raise TooMany()
                    if goal is False or pt.ev(goal) is False:
                        for h in hyps:
                            if pt.ev_partial(h) is False: return True
                        fl.append(list(pt.info))
                        if len(fl) > 40: return False
                    return True
                try: total += pt.leaves(roots, run)
                except Resample: continue
                done += 1
                if fl: fails = fl; break
        except TooMany:
            ok = False
        self.pittime += time.time() - t0
        if ok and not fails: return Result('proved', 'pit', total)
        r = self.refute(hyps, goal, fails, tries)
        if r is not None: return Result('refuted', 'numeric', total, env=r)
        if ok and len(fails) <= 40:
            t0 = time.time()
            allunsat = True; cand = None
            for info in fails:
                s, env = self.z3leaf(hyps, goal, info)
                if s != 'unsat': allunsat = False
                if s == 'sat' and env is not None and self.confirm(hyps, goal, env):
                    cand = env; break
                if s != 'unsat': break
            self.z3time += time.time() - t0
            if cand is not None: return Result('refuted', 'z3', total, env=cand)
            if allunsat: return Result('proved', 'pit+z3', total)
        return Result('unknown', 'none', total, detail=fails[:2])
    def univariate(self, hyps, goal):
        """obligations about one real variable against constants: decided exactly at the breakpoints and between them"""
        if not isinstance(goal, T): return None
        roots = [t for t in list(hyps) + [goal] if isinstance(t, T)]
        nodes = reach(*roots); vs = [n for n in nodes if n.op in ('v', 'bv', 'iv')]
        if len(vs) != 1 or vs[0].op != 'v' or len(nodes) > 4000: return None
        lin = {}     # real node -> set of (slope, offset) it can take
        pts = set()
        for n in nodes:
            o, a = n.op, n.a
            if o == 'v': lin[n.id] = {(Fraction(1), Fraction(0))}
            elif o == 'c': lin[n.id] = {(Fraction(0), a[0])}
            elif o in ('+', '-'):
                s = 1 if o == '+' else -1
                lin[n.id] = {(p[0] + s * q[0], p[1] + s * q[1]) for p in lin[a[0].id] for q in lin[a[1].id]}
            elif o == 'neg': lin[n.id] = {(-p, -q) for p, q in lin[a[0].id]}
            elif o in ('*', '/') and a[1].op == 'c' and a[1].a[0]:
                k = a[1].a[0] if o == '*' else 1 / a[1].a[0]
                lin[n.id] = {(p * k, q * k) for p, q in lin[a[0].id]}
            elif o == '*' and a[0].op == 'c': lin[n.id] = {(p * a[0].a[0], q * a[0].a[0]) for p, q in lin[a[1].id]}
            elif o == 'f' and a[0] == 'abs':
                x = lin[a[1].id]; lin[n.id] = x | {(-p, -q) for p, q in x}
                pts |= {-q / p for p, q in x if p}
            elif o == 'ite': lin[n.id] = lin[a[1].id] | lin[a[2].id]
            elif o in ('lt', 'eq'): pts |= {(q2 - q1) / (p1 - p2) for p1, q1 in lin[a[0].id] for p2, q2 in lin[a[1].id] if p1 != p2}
            elif o not in ('not', 'and', 'iff', 'bite', 'same'): return None
            if n.id in lin and len(lin[n.id]) > 8: return None
            if o == 'same': return None
        if len(pts) > 400: return None
        b = sorted(pts) or [Fraction(0)]
        cand = [b[0] - 1] + b + [(x + y) / 2 for x, y in zip(b, b[1:])] + [b[-1] + 1]
        s = self.signs_env; name = vs[0].a[0]; m = (s(name) if callable(s) else s.get(name)) or ANY
        for x in sorted(cand + ([Fraction(0)] if m != ANY else []) + ([b[0] / 2, b[-1] / 2] if m != ANY else [])):
            if x > 0 and not m & POS or x < 0 and not m & NEG or x == 0 and not m & ZER: continue
            me = {}
            for n in nodes:
                o, a = n.op, n.a
                g = lambda i: me[a[i].id] if isinstance(a[i], T) else a[i]
                me[n.id] = x if o == 'v' else a[0] if o == 'c' else g(0) + g(1) if o == '+' else g(0) - g(1) if o == '-' else -g(0) if o == 'neg' else g(0) * g(1) if o == '*' else g(0) / g(1) if o == '/' else \
                    abs(g(1)) if o == 'f' else (g(1) if g(0) else g(2)) if o in ('ite', 'bite') else g(0) < g(1) if o == 'lt' else g(0) == g(1) if o in ('eq', 'iff') else (not g(0)) if o == 'not' else all(me[k.id] if isinstance(k, T) else k for k in a)
            if all(me[h.id] if isinstance(h, T) else h for h in hyps) and not me[goal.id]: return {name: x}
        return True
    def linear(self, hyps, goal):
        """finite-domain / linear obligations: z3 decides them as they are"""
        if not isinstance(goal, T): return False
        disc = False
        for n in reach(*[t for t in list(hyps) + [goal] if isinstance(t, T)]):
            if n.op in ('iv', 'bv', 'ieq', 'iite', 'ite'): disc = True
            elif n.op == '*' and n.a[0].op != 'c' and n.a[1].op != 'c': return False
            elif n.op == '/' and n.a[1].op != 'c': return False
            elif n.op == 'f' and n.a[0] != 'abs': return False
        return disc
    def prop(self, hyps, goal):
        """boolean-heavy obligations: atoms compared by identity testing, boolean structure by z3.
        True: proved; list: a satisfying sign valuation of the atoms; None: not applicable"""
        if not isinstance(goal, T): return None
        roots = [t for t in list(hyps) + [goal] if isinstance(t, T)]
        nodes = reach(*roots)
        atoms = [n for n in nodes if n.op in ('lt', 'eq')]
        if len(atoms) < 7: return None
        choices = False     # with choices (if, absolute value) left uninterpreted only a proof counts
        for n in nodes:
            if n.op in ('iv', 'iite', 'ieq', 'same'): return None
            if n.op == 'ite' or n.op == 'f' and n.a[0] == 'abs': choices = True
        import z3
        pts = []; k = 0
        for n in nodes:
            if n.op == '/' and n.a[1].op == 'c' and not n.a[1].a[0]: return None
        while len(pts) < self.points:
            if k > 50: return None
            if choices:
                op = self.__dict__.setdefault('_opts', {})
                if k not in op: op[k] = OpaquePoint(random.Random(repr(('opaque', self.seed, k))), self.sg)
                pt = op[k]; k += 1
                try: pts.append([f_sub(pt.evo(n.a[0]), pt.evo(n.a[1])) for n in atoms])
                except Resample: pass
                except (ValueError, TypeError): return None
                continue
            pt = self.fresh_point(k); k += 1
            pt.impurity(roots); pt.memo = {}; pt.sg = {}; pt.bv = {}; pt.info = []; pt.dec = []; pt.pos = 0
            try:
                pts.append([f_sub(pt.ev(n.a[0]), pt.ev(n.a[1])) for n in atoms])
            except Resample: continue
        ctx = z3.Context(); S = z3.Solver(ctx=ctx); S.set('timeout', 20000)
        keys = {}; m = {}; terms = {}
        for i, n in enumerate(atoms):
            vals = tuple(p[i] for p in pts)
            if all(v == 0 for v in vals): m[n.id] = z3.BoolVal(n.op == 'eq', ctx=ctx); continue
            cs = [f_canon(v) for v in vals]; key = (tuple(c[0] for c in cs), tuple(c[1] != cs[0][1] for c in cs)); fl = cs[0][1]
            if key not in keys:
                ng = z3.Bool('n%d' % len(keys), ctx=ctx); ps = z3.Bool('p%d' % len(keys), ctx=ctx)
                S.add(z3.Not(z3.And(ng, ps))); keys[key] = (ng, ps); terms[key] = (n, fl)
            ng, ps = keys[key]
            sg = self.sg.of(sub(n.a[0], n.a[1])) if isinstance(sub(n.a[0], n.a[1]), T) else ANY
            if fl: sg = _negs(sg)
            if not sg & NEG: S.add(z3.Not(ng))
            if not sg & POS: S.add(z3.Not(ps))
            if not sg & ZER: S.add(z3.Or(ng, ps))
            if n.op == 'eq': m[n.id] = z3.Not(z3.Or(ng, ps))
            else: m[n.id] = ps if fl else ng
        g = lambda x: m[x.id] if isinstance(x, T) else z3.BoolVal(x, ctx=ctx)
        for n in nodes:
            if n.id in m or n.sort != 'b': continue
            o = n.op
            if o == 'bv': m[n.id] = z3.Bool('b_' + n.a[0], ctx=ctx)
            elif o == 'not': m[n.id] = z3.Not(g(n.a[0]))
            elif o == 'and': m[n.id] = z3.And(*[g(x) for x in n.a])
            elif o == 'iff': m[n.id] = g(n.a[0]) == g(n.a[1])
            elif o == 'bite': m[n.id] = z3.If(g(n.a[0]), g(n.a[1]), g(n.a[2]))
            else: return None
        for h in hyps:
            if isinstance(h, T): S.add(g(h))
        S.add(z3.Not(g(goal)))
        r = S.check()
        if r == z3.unsat: return True
        if r != z3.sat or choices: return None
        mo = S.model(); info = []
        for key, (ng, ps) in keys.items():
            n, fl = terms[key]
            a, b = z3.is_true(mo.eval(ng, model_completion=True)), z3.is_true(mo.eval(ps, model_completion=True))
            s = 1 if b else -1 if a else 0
            info.append((sub(n.a[0], n.a[1]), -s if fl else s))
        for n in nodes:
            if n.op == 'bv': info.append((n, z3.is_true(mo.eval(m[n.id], model_completion=True))))
        return info
    def opaque(self, goal):
        """identity that holds whatever the choices in it"""
        if not isinstance(goal, T): return False
        gs = list(goal.a) if goal.op == 'and' else [goal]
        if any(not isinstance(g, T) or g.op != 'same' for g in gs): return False
        pts = self.__dict__.setdefault('_opts', {})
        done = 0
        for k in range(12):
            if k not in pts: pts[k] = OpaquePoint(random.Random(repr(('opaque', self.seed, k))), self.sg)
            try:
                for g in gs:
                    if f_sub(pts[k].evo(g.a[0]), pts[k].evo(g.a[1])) != 0: return False
            except Resample: continue
            done += 1
            if done >= self.points: return True
        return False
    # ---- numeric refutation
    def sample(self, name, rng):
        if self.sampler is not None:
            v = self.sampler(name, rng)
            if v is not None: return v
        s = self.signs_env
        m = (s(name) if callable(s) else s.get(name)) or ANY
        x = rng.choice([rng.uniform(0.1, 3), rng.uniform(0.5, 1.5)])
        if m == POS or m == POS | ZER: return x
        if m == NEG: return -x
        return x if rng.random() < 0.5 else -x
    def admissible(self, env):
        """the valuation respects the signs the contract gives to the variables"""
        s = self.signs_env
        for n, v in env.items():
            if isinstance(v, (bool, str)): continue
            m = (s(n) if callable(s) else s.get(n)) or ANY
            if m == POS and not v > 0 or m == POS | ZER and not v >= 0 or m == NEG and not v < 0: return False
        return True
    def refute(self, hyps, goal, fails, tries):
        t0 = time.time()
        try:
            rng = random.Random(repr(('num', self.seed)))
            vs = free_vars(*[t for t in list(hyps) + [goal] if isinstance(t, T)])
            order = reach(*[t for t in list(hyps) + [goal] if isinstance(t, T)])
            win = _windows(hyps)
            for k in range(tries):
                env = {}
                for v in vs:
                    n = v.a[0]
                    if v.op == 'bv': env[n] = rng.random() < 0.5
                    elif v.op == 'iv': env[n] = rng.choice(TM.INT_DOM[n])
                    else: env[n] = float(self.sample(n, rng)); w = win.get(n); env[n] = env[n] if w is None else _within(env[n], w, rng)
                if fails and k % 2:
                    self.steer(env, rng.choice(fails), rng, order)
                    if not self.admissible(env): continue
                try: r = self.check(hyps, goal, env, order, 'float')
                except (ArithmeticError, ValueError, OverflowError): continue
                if r is False:
                    if self.confirm(hyps, goal, env): return env
                if time.time() - t0 > self.cap: break
            return None
        finally:
            self.numtime += time.time() - t0
    def steer(self, env, info, rng, order):
        """move env towards the valuation `info` (fix discrete choices; solve equalities and flip signs)"""
        for t, s in info:
            if not isinstance(t, T): continue
            if t.op in ('bv', 'iv'): env[t.a[0]] = s; continue
        for rep in range(2):
            for t, s in info:
                if not isinstance(t, T) or t.op in ('bv', 'iv'): continue
                vs = [v for v in free_vars(t) if v.op == 'v']
                if not vs: continue
                try: d = neval(t, env)
                except Exception: continue
                if (d > 0) - (d < 0) == s: continue
                v = rng.choice(vs).a[0]
                x0 = env[v]
                if s == 0:
                    f = lambda x: neval(t, {**env, v: x})
                    r = _root(f, x0, rng)
                    if r is not None: env[v] = r
                else:
                    for sc in (-1.0, 0.5, 2.0, 0.1, 10.0, 1e-3, 1e3, 0.0):
                        try: d = neval(t, {**env, v: x0 * sc})
                        except Exception: continue
                        if (d > 0) - (d < 0) == s: env[v] = x0 * sc; break
    def check(self, hyps, goal, env, order, mode):
        ev = Num(env, mode)
        for h in hyps:
            v = ev(h)
            if v is False: return None
        return ev(goal)
    def confirm(self, hyps, goal, env):
        import mpmath
        if not self.admissible(env): return False
        with mpmath.workdps(60):
            e2 = {k: (v if isinstance(v, (bool, int)) else mpmath.mpf(v) if not isinstance(v, Fraction) else mpmath.mpf(v.numerator) / v.denominator) for k, v in env.items()}
            vs = free_vars(*[t for t in list(hyps) + [goal] if isinstance(t, T)])
            for v in vs:
                if v.a[0] not in e2:
                    e2[v.a[0]] = False if v.op == 'bv' else TM.INT_DOM[v.a[0]][0] if v.op == 'iv' else mpmath.mpf(1)
            try: return self.check(hyps, goal, e2, None, 'mp') is False
            except (ArithmeticError, ValueError, OverflowError): return False
    # ---- z3
    def z3leaf(self, hyps, goal, info):
        try:
            import z3
            ctx = Z3Ctx()
            s = z3.Solver(ctx=ctx.ctx); s.set('timeout', self.z3ms)
            fs = []
            for h in hyps:
                if isinstance(h, T): fs.append(ctx.b(h))
            g = ctx.b(goal) if isinstance(goal, T) else z3.BoolVal(bool(goal), ctx=ctx.ctx)
            fs.append(z3.Not(g))
            for t, sg in info:
                if not isinstance(t, T): continue
                if t.op == 'bv': fs.append(ctx.b(t) == sg)
                elif t.op == 'iv': fs.append(ctx.i(t) == sg)
                else:
                    x = ctx.r(t)
                    fs.append(x > 0 if sg > 0 else x < 0 if sg < 0 else x == 0)
            for n, x in ctx.vars.items():
                se = self.signs_env
                m = (se(n) if callable(se) else se.get(n)) or ANY
                if m == POS: fs.append(x > 0)
                elif m == POS | ZER: fs.append(x >= 0)
                elif m == NEG: fs.append(x < 0)
            s.add(*fs); s.add(*ctx.side)
            r = s.check()
            if r == z3.unsat: return 'unsat', None
            if r == z3.sat:
                m = s.model(); env = {}
                for n, x in ctx.vars.items():
                    v = m.eval(x, model_completion=True)
                    try: env[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    except Exception:
                        try:
                            a = v.approx(60); env[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
                        except Exception: return 'sat', None
                for n, x in ctx.bvars.items(): env[n] = z3.is_true(m.eval(x, model_completion=True))
                for n, x in ctx.ivars.items(): env[n] = m.eval(x, model_completion=True).as_long()
                return 'sat', env
            return 'unknown', None
        except RecursionError:
            return 'unknown', None

def _root(f, x0, rng):
    """secant root finding"""
    try:
        x1 = x0 * (1 + 0.1 * rng.random()) + 1e-3
        y0, y1 = f(x0), f(x1)
        for _ in range(60):
            if y1 == y0: break
            x2 = x1 - y1 * (x1 - x0) / (y1 - y0)
            x0, y0, x1 = x1, y1, x2
            y1 = f(x1)
            if abs(x1 - x0) <= 1e-16 * abs(x1): break
            if y1 == 0: break
        if abs(y1) < 1e-9 * (1 + abs(x1)): return x1
    except Exception: return None
    return None

def neval(t, env): return Num(env, 'float')(t)

NUMFN = {}      # meaning of functions a contract leaves uninterpreted, for counterexamples and their replay
class Num:
    """numeric evaluation (float or mpmath); comparisons treat relative noise as equality"""
    def __init__(self, env, mode, noise=1e-13):
        self.noise = noise; self.env = env; self.mode = mode; self.memo = {}; self.mag = {}
        if mode == 'mp':
            import mpmath
            self.m = mpmath
        else: self.m = math
    def __call__(self, root):
        if not isinstance(root, T): return root
        memo = self.memo; st = [root]
        while st:
            n = st[-1]
            if n.id in memo: st.pop(); continue
            if n.op in ('ite', 'bite', 'iite'):
                c = n.a[0]
                if isinstance(c, T) and c.id not in memo: st.append(c); continue
                b = n.a[1] if (memo[c.id] if isinstance(c, T) else c) else n.a[2]
                if not isinstance(b, T): memo[n.id] = b; st.pop(); continue
                if b.id not in memo: st.append(b); continue
                memo[n.id] = memo[b.id]; self.mag[n.id] = self.mag.get(b.id, 0); st.pop(); continue
            if n.op == 'and':
                push = None; res = True
                for k in n.a:
                    if k.id not in memo: push = k; break
                    if memo[k.id] is False: res = False; break
                if push is not None: st.append(push); continue
                memo[n.id] = res; st.pop(); continue
            need = [k for k in kids(n) if k.id not in memo]
            if need: st.extend(need); continue
            memo[n.id] = self.node(n); st.pop()
        return memo[root.id]
    def node(self, n):
        o, a, me, mg = n.op, n.a, self.memo, self.mag
        if o == 'c':
            f = a[0]
            v = float(f) if self.mode == 'float' else self.m.mpf(f.numerator) / f.denominator
            mg[n.id] = abs(v); return v
        if o == 'v':
            v = self.env[a[0]] if a[0] in self.env else DEFAULT_VAR(a[0])
            if type(v) is Fraction: v = float(v) if self.mode == 'float' else self.m.mpf(v.numerator) / v.denominator
            mg[n.id] = abs(v); return v
        if o in ('bv', 'iv'): return self.env[a[0]]
        if o == 'ic': return a[0]
        if o in ('+', '-'):
            x, y = me[a[0].id], me[a[1].id]
            mg[n.id] = max(mg[a[0].id], mg[a[1].id])
            return x + y if o == '+' else x - y
        if o == '*':
            x, y = me[a[0].id], me[a[1].id]
            mg[n.id] = max(abs(x), 1e-300) * mg[a[1].id] if mg[a[1].id] * abs(x) > mg[a[0].id] * abs(y) else mg[a[0].id] * abs(y)
            return x * y
        if o == '/':
            x, y = me[a[0].id], me[a[1].id]
            if y == 0: raise ZeroDivisionError
            if abs(y) < mg[a[1].id] * (1e-9 if self.mode == 'float' else 1e-40): raise ZeroDivisionError
            r = x / y
            mg[n.id] = max(mg[a[0].id] / abs(y), abs(r) * mg[a[1].id] / abs(y))
            return r
        if o == 'neg': mg[n.id] = mg[a[0].id]; return -me[a[0].id]
        if o == 'f':
            xs = [me[x.id] for x in a[1:]]
            v = self.func(a[0], xs)
            mg[n.id] = abs(v) if a[0] != 'abs' else mg[a[1].id]
            return v
        if o in ('lt', 'eq'):
            x, y = me[a[0].id], me[a[1].id]
            d = x - y; s = max(mg[a[0].id], mg[a[1].id])
            tiny = n.op == 'lt' and (a[0].op == 'c' and 0 < abs(a[0].a[0]) < 1e-20 or a[1].op == 'c' and 0 < abs(a[1].a[0]) < 1e-20)
            z = abs(d) <= s * ((0 if self.mode == 'float' else 1e-45) if tiny else self.noise)
            if o == 'eq': return bool(z)
            return bool(not z and d < 0)
        if o == 'same':
            x, y = me[a[0].id], me[a[1].id]
            if x != x or y != y:
                if (x != x) != (y != y): return False
                raise ArithmeticError
            d = abs(x - y)
            if self.mode == 'float':
                s = max(mg[a[0].id], mg[a[1].id])
                return bool(d <= 1e-9 * s)
            s = max(abs(x), abs(y))
            if self.noise < 1e-13: return bool(d <= self.m.mpf('1e-12') * s or d <= self.m.mpf('1e-30') * max(mg[a[0].id], mg[a[1].id]))
            return bool(d <= self.m.mpf('1e-10') * s or d <= self.m.mpf('1e-14') * max(mg[a[0].id], mg[a[1].id]))
        if o == 'not': return not me[a[0].id]
        if o == 'iff': return me[a[0].id] == me[a[1].id]
        if o == 'ieq': return me[a[0].id] == me[a[1].id]
        raise ValueError(o)
    def func(self, f, xs):
        m = self.m
        if f == 'sqrt':
            if xs[0] < 0: raise ValueError('sqrt of negative')
            return m.sqrt(xs[0])
        if f == 'abs': return abs(xs[0])
        if f == 'div0': return m.nan
        if f in ('sin', 'cos', 'tan', 'exp', 'sinh', 'cosh', 'tanh', 'acos', 'asin', 'atan', 'asinh', 'acosh', 'atanh', 'atan2'):
            if f in ('acos', 'asin') and abs(xs[0]) > 1:
                raise ValueError
            return getattr(m, f)(*xs)
        if f == 'ln':
            if xs[0] <= 0: raise ValueError
            return m.log(xs[0])
        if f == 'floor': return m.floor(xs[0]) if self.mode == 'mp' else float(math.floor(xs[0]))
        if f == 'ceil': return m.ceil(xs[0]) if self.mode == 'mp' else float(math.ceil(xs[0]))
        if f == 'round': return m.floor(xs[0] + 0.5) if self.mode == 'mp' else float(math.floor(xs[0] + 0.5))
        if f == 'trunc': return type(xs[0])(int(xs[0]))
        if f == 'pow':
            if xs[0] <= 0: raise ValueError
            return xs[0] ** xs[1]
        if f == 'rem': return m.fmod(xs[0], xs[1]) if self.mode == 'float' else xs[0] - xs[1] * type(xs[0])(int(xs[0] / xs[1]))
        if f in NUMFN:
            return NUMFN[f](m, xs)
        if f.startswith('effect_'):
            # open forces: a constant plus a smooth perturbation whose size depends on the function and on the first argument
            h = int.from_bytes(hashlib.blake2b(('%s %.12g' % (f, float(xs[0]))).encode(), digest_size=8).digest(), 'little')
            g = int.from_bytes(hashlib.blake2b(('%.12g' % float(xs[0])).encode(), digest_size=8).digest(), 'little')
            sc = (1e-1, 1e-2, 1e-3, 1e-4)[g % 4]
            pick = (None, 'x', 'y', 'z', '0', '1', 'a', 'L')[g // 4 % 8]        # which components vary
            if pick and pick not in f[7:]: sc = 0.0
            acc = m.sin(xs[0] + h % 17)
            if sc:
                for k, x in enumerate(xs[1:]):
                    h = (h * 6364136223846793005 + 1442695040888963407) % (1 << 64)
                    acc = acc + sc * ((h >> 33) % 1000 / 500.0 - 1.0) * m.sin(x + k)
            return acc
        # uninterpreted: a fixed pseudo-random smooth function of the arguments
        h = int.from_bytes(hashlib.blake2b(f.encode(), digest_size=8).digest(), 'little')
        acc = (h % 1000) / 997.0 + 0.5
        for k, x in enumerate(xs):
            h = (h * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            acc = acc + ((h >> 33) % 1000 / 500.0 - 1.0) * m.sin(x + k) + (h >> 40) % 100 / 300.0 * m.cos(2 * x)
        return acc

def DEFAULT_VAR(n):
    raise KeyError(n)

class Z3Ctx:
    def __init__(self):
        import z3
        self.z3 = z3; self.ctx = z3.Context(); self.vars = {}; self.bvars = {}; self.ivars = {}; self.side = []; self.m = {}; self.fns = {}
    def build(self, root):
        z3 = self.z3
        for n in reach(root):
            if n.id in self.m: continue
            o = n.op; a = n.a
            g = lambda x: self.m[x.id] if isinstance(x, T) else z3.BoolVal(x, ctx=self.ctx)
            if o == 'c': v = z3.RealVal(a[0], ctx=self.ctx)
            elif o == 'v': v = self.vars.setdefault(a[0], z3.Real(a[0], ctx=self.ctx))
            elif o == 'bv': v = self.bvars.setdefault(a[0], z3.Bool(a[0], ctx=self.ctx))
            elif o == 'iv':
                v = self.ivars.setdefault(a[0], z3.Int(a[0], ctx=self.ctx))
                self.side.append(z3.Or(*[v == k for k in TM.INT_DOM[a[0]]]))
            elif o == 'ic': v = z3.IntVal(a[0], ctx=self.ctx)
            elif o == '+': v = g(a[0]) + g(a[1])
            elif o == '-': v = g(a[0]) - g(a[1])
            elif o == '*': v = g(a[0]) * g(a[1])
            elif o == '/':
                v = g(a[0]) / g(a[1])
                self.side.append(g(a[1]) != 0)
            elif o == 'neg': v = -g(a[0])
            elif o == 'f':
                xs = [g(x) for x in a[1:]]
                if a[0] == 'sqrt':
                    v = z3.FreshReal('sq', ctx=self.ctx); self.side += [v >= 0, v * v == xs[0]]
                elif a[0] == 'abs': v = z3.If(xs[0] >= 0, xs[0], -xs[0])
                elif a[0] in ('floor',):
                    v = z3.ToReal(z3.ToInt(xs[0]))
                else:
                    R = z3.RealSort(ctx=self.ctx)
                    k = (a[0], len(xs))
                    if k not in self.fns: self.fns[k] = z3.Function('f_' + a[0], *([R] * (len(xs) + 1)))
                    v = self.fns[k](*xs)
                    if a[0] in ('exp', 'cosh'): self.side.append(v > 0)
                    if a[0] in ('sin', 'cos'): self.side += [v <= 1, v >= -1]
            elif o == 'lt': v = g(a[0]) < g(a[1])
            elif o in ('eq', 'same', 'ieq', 'iff'): v = g(a[0]) == g(a[1])
            elif o == 'not': v = z3.Not(g(a[0]))
            elif o == 'and': v = z3.And(*[g(x) for x in a])
            elif o in ('ite', 'bite', 'iite'): v = z3.If(g(a[0]), g(a[1]), g(a[2]))
            else: raise ValueError(o)
            self.m[n.id] = v
        return self.m[root.id]
    b = r = i = build
