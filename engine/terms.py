"""Hash-consed first-order terms over the reals, booleans and (small) integers.

Sorts: 'r' real, 'b' bool, 'i' integer.  Real leaves: constants (exact rationals),
variables, uninterpreted applications.  Floating point is read as real arithmetic.
"""
from fractions import Fraction
import math

class T:
    __slots__ = ('op', 'a', 'sort', 'id', '__weakref__')
    def __repr__(self): return show(self)
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, n): return powi(s, n)
    def __lt__(s, o): return lt(s, lift(o))
    def __gt__(s, o): return lt(lift(o), s)
    def __le__(s, o): return le(s, lift(o))
    def __ge__(s, o): return le(lift(o), s)
    def __and__(s, o): return and_(s, o)
    def __or__(s, o): return or_(s, o)
    def __invert__(s): return not_(s)
    def __bool__(s):
        h = BOOL_HOOK[0]
        if h is not None: return h(s)
        raise TypeError('symbolic term used as a Python bool: %s' % show(s)[:200])

BOOL_HOOK = [None]
_tab = {}
_n = [0]

def mk(op, a, sort):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.sort = sort
        _n[0] += 1; t.id = _n[0]
        _tab[k] = t
    return t

def reset():
    _tab.clear()

_cc = {}
def const(x):
    if isinstance(x, float):
        if x != x: return mk('v', ('NaN',), 'r')
        if x in (math.inf, -math.inf):
            return mk('v', ('inf',), 'r') if x > 0 else neg(mk('v', ('inf',), 'r'))
    x = Fraction(x)
    return mk('c', (x,), 'r')

def lift(x):
    if isinstance(x, T): return x
    if isinstance(x, bool): return x
    return const(x)

def iconst(n): return mk('ic', (n,), 'i')

def var(name): return mk('v', (name,), 'r')
def bvar(name): return mk('bv', (name,), 'b')
INT_DOM = {}
def ivar(name, dom):
    INT_DOM[name] = tuple(dom)
    return mk('iv', (name,), 'i')

def isc(t): return t.op == 'c'
ZERO = const(0); ONE = const(1)

def add(a, b):
    if type(a) is float or type(b) is float: return _fl(a) + _fl(b)
    if a.op == 'c':
        if b.op == 'c': return const(a.a[0] + b.a[0])
        if not a.a[0]: return b
    elif b.op == 'c' and not b.a[0]: return a
    return mk('+', (a, b), 'r')

def _fl(x):
    if type(x) is float: return x
    if isinstance(x, T) and x.op == 'c': return float(x.a[0])
    raise TypeError('mixing concrete floats and symbolic terms')

def sub(a, b):
    if type(a) is float or type(b) is float: return _fl(a) - _fl(b)
    if a is b: return const(0)
    if a.op == 'c':
        if b.op == 'c': return const(a.a[0] - b.a[0])
        if not a.a[0]: return neg(b)
    elif b.op == 'c' and not b.a[0]: return a
    return mk('-', (a, b), 'r')

def _isd0(t): return t.op == 'f' and t.a[0] == 'div0'
def _isinf(t): return t.op == 'f' and t.a[0] == 'div0' and not (t.a[1].op == 'c' and not t.a[1].a[0])
def neg(a):
    if type(a) is float: return -a
    if a.op == 'c': return const(-a.a[0])
    if _isd0(a): return mk('f', ('div0', neg(a.a[1])), 'r')
    if a.op == 'neg': return a.a[0]
    return mk('neg', (a,), 'r')

def mul(a, b):
    if type(a) is float or type(b) is float: return _fl(a) * _fl(b)
    if a.op == 'c' and _isd0(b): return mk('f', ('div0', mul(a, b.a[1])), 'r')
    if b.op == 'c' and _isd0(a): return mk('f', ('div0', mul(b, a.a[1])), 'r')
    if a.op == 'c':
        v = a.a[0]
        if b.op == 'c': return const(v * b.a[0])
        if not v: return a
        if v == 1: return b
        if v == -1: return neg(b)
    elif b.op == 'c':
        v = b.a[0]
        if not v: return b
        if v == 1: return a
        if v == -1: return neg(a)
    return mk('*', (a, b), 'r')

UNDEF = mk('v', ('undef',), 'r')
def div(a, b):
    if type(a) is float or type(b) is float:
        a = _fl(a); b = _fl(b)
        try: return a / b
        except ZeroDivisionError:
            if a == 0 or a != a: return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
    if b.op == 'c':
        v = b.a[0]
        if not v: return mk('f', ('div0', a), 'r')     # division by zero: no real value (NaN or infinite in f64)
        if a.op == 'c': return const(a.a[0] / v)
        if v == 1: return a
        if v == -1: return neg(a)
    if a.op == 'c' and not a.a[0]: return a
    if _isinf(b) and not _isd0(a): return const(0)     # x / (y/0) with y != 0: x divided by an infinity
    return mk('/', (a, b), 'r')

def powi(a, n):
    if type(a) is float:
        try: return float(a) ** n if n >= 0 else (1.0 / (a ** -n))
        except ZeroDivisionError: return math.inf
        except OverflowError: return math.inf
    if n == 0: return const(1)
    if n < 0: return div(const(1), powi(a, -n))
    r = None; base = a
    while n:
        if n & 1: r = base if r is None else mul(r, base)
        n >>= 1
        if n: base = mul(base, base)
    return r

_FLF = {
 'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan,
 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'abs': abs,
 'acos': lambda x: math.acos(x) if -1 <= x <= 1 else math.nan,
 'asin': lambda x: math.asin(x) if -1 <= x <= 1 else math.nan,
 'atan': math.atan, 'ln': lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
 'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)),
 'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh,
 'trunc': lambda x: float(math.trunc(x)), 'round': lambda x: math.copysign(math.floor(abs(x)+0.5), x),
 'cbrt': lambda x: math.copysign(abs(x)**(1/3), x), 'exp_m1': math.expm1, 'ln_1p': math.log1p,
}
def fn(name, *args):
    """uninterpreted / transcendental application"""
    if all(type(x) is float for x in args):
        try:
            if name in _FLF: return float(_FLF[name](*args))
            if name == 'atan2': return math.atan2(*args)
            if name == 'pow': return math.pow(*args)
            if name == 'rem': return math.fmod(*args)
            if name == 'copysign': return math.copysign(*args)
        except (ValueError, OverflowError): return math.nan if name not in ('exp','sinh','cosh') else math.inf
    args = tuple(const(x) if type(x) in (float, int, Fraction) else x for x in args)
    if len(args) == 1 and args[0].op == 'c':
        v = args[0].a[0]
        if v == 0 and name in ('sqrt', 'sin', 'tan', 'sinh', 'abs', 'floor', 'tanh', 'atan', 'asin', 'asinh', 'ceil', 'trunc', 'round', 'cbrt'): return args[0]
        if v == 0 and name in ('cos', 'exp', 'cosh'): return const(1)
        if name == 'abs': return const(abs(v))
        if name == 'floor': return const(v.numerator // v.denominator)
        if name == 'ceil': return const(-((-v.numerator) // v.denominator))
        if name == 'trunc': return const(int(v))
        if name == 'sqrt' and v > 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return const(Fraction(n, d))
        if name == 'ln' and v == 1: return const(0)
        if name == 'acos' and v == 1: return const(0)
    if name == 'pow' and args[1].op == 'c':
        e = args[1].a[0]
        if e.denominator > 1000:
            e2 = e.limit_denominator(100)
            if abs(e2 - e) < Fraction(1, 10**15) * max(1, abs(e)): e = e2; args = (args[0], const(e))
        if e.denominator == 1 and abs(e) <= 64: return powi(args[0], int(e))
        if e.denominator == 2 and abs(e) <= 64:
            # x^(k+1/2) = x^k sqrt(x)
            k = (e.numerator - 1) // 2
            return mul(powi(args[0], k), fn('sqrt', args[0])) if k >= 0 else div(fn('sqrt', args[0]), powi(args[0], -k))
        if 2 < e.denominator <= 100 and abs(e.numerator) <= 64 and e.numerator != 1:
            return powi(fn('pow', args[0], const(Fraction(1, e.denominator))), e.numerator)
        if e.denominator > 1 and args[0].op == 'c' and args[0].a[0] == 1: return args[0]
    if name == 'cbrt': return fn('pow', args[0], const(Fraction(1, 3)))
    return mk('f', (name,) + args, 'r')

def sqrt(x): return fn('sqrt', lift(x))
def sin(x): return fn('sin', lift(x))
def cos(x): return fn('cos', lift(x))
def tan(x): return fn('tan', lift(x))
def exp(x): return fn('exp', lift(x))
def fabs(x): return fn('abs', lift(x))

# ---- booleans: Python bools or terms of sort 'b'
def not_(c):
    if type(c) is bool: return not c
    if c.op == 'not': return c.a[0]
    return mk('not', (c,), 'b')

def and_(*cs):
    out = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c.op == 'and':
            for d in c.a:
                if d not in out: out.append(d)
        elif c not in out: out.append(c)
    for c in out:
        if not_(c) in out: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'b')

def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))

def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if type(a) is bool: return b if a else not_(b)
    if type(b) is bool: return a if b else not_(a)
    if a is b: return True
    return mk('iff', (a, b), 'b')

def lt(a, b):
    if type(a) is float or type(b) is float: return _fl(a) < _fl(b)
    if a is b: return False
    if a.op == 'c' and b.op == 'c': return a.a[0] < b.a[0]
    return mk('lt', (a, b), 'b')
def le(a, b):
    if type(a) is float or type(b) is float: return _fl(a) <= _fl(b)
    if a is b: return True
    return not_(lt(b, a))
def eq(a, b):
    """equality test in program conditions (sign test on the difference)"""
    if type(a) is float or type(b) is float: return _fl(a) == _fl(b)
    if a is b: return True
    if a.op == 'c' and b.op == 'c': return a.a[0] == b.a[0]
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'b')
def same(a, b):
    """goal equality: identity of real terms"""
    a = lift(a); b = lift(b)
    if a is b: return True
    if a.op == 'c' and b.op == 'c' and a.a[0] == b.a[0]: return True
    return mk('same', (a, b), 'b')

def ieq(a, b):
    if type(a) is int and type(b) is int: return a == b
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if a.op == 'iite':
            c, x, y = a.a
            return ite_b(c, ieq(x, b), ieq(y, b))
        if a.op == 'iv' and INT_DOM[a.a[0]] and b not in INT_DOM[a.a[0]]: return False
        b = iconst(b)
        if a.op == 'ic': return a is b
    if a is b: return True
    return mk('ieq', (a, b), 'b')

def ite_b(c, x, y):
    if type(c) is bool: return x if c else y
    if x is y: return x
    if x is True and y is False: return c
    if x is False and y is True: return not_(c)
    if x is True: return or_(c, y)
    if x is False: return and_(not_(c), y)
    if y is True: return or_(not_(c), x)
    if y is False: return and_(c, x)
    return mk('bite', (c, x, y), 'b')

def ite(c, x, y):
    """x, y real"""
    if type(c) is bool: return x if c else y
    if x is y: return x
    if type(x) is float: x = const(x)
    if type(y) is float: y = const(y)
    if x is y: return x
    if c.op == 'not': c, x, y = c.a[0], y, x
    if x.op == 'ite' and x.a[0] is c: x = x.a[1]
    if y.op == 'ite' and y.a[0] is c: y = y.a[2]
    if x is y: return x
    return mk('ite', (c, x, y), 'r')

def ite_i(c, x, y):
    if type(c) is bool: return x if c else y
    if type(x) is int: x = iconst(x)
    if type(y) is int: y = iconst(y)
    if x is y: return x.a[0] if x.op == 'ic' else x
    return mk('iite', (c, x, y), 'i')

def rmin(a, b): return ite(lt(a, b), a, b)
def rmax(a, b): return ite(lt(a, b), b, a)

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    o = t.op
    if o == 'c':
        f = t.a[0]
        return str(f.numerator) if f.denominator == 1 else repr(float(f))
    if o in ('v', 'bv', 'iv', 'ic'): return str(t.a[0])
    if d > 7: return '…'
    if o in ('+', '-', '*', '/'): return '(%s %s %s)' % (show(t.a[0], d+1), o, show(t.a[1], d+1))
    if o == 'neg': return '-%s' % show(t.a[0], d+1)
    if o == 'f': return '%s(%s)' % (t.a[0], ', '.join(show(x, d+1) for x in t.a[1:]))
    if o in ('lt', 'eq', 'same', 'ieq', 'iff'): return '(%s %s %s)' % (show(t.a[0], d+1), {'lt':'<','eq':'==','same':'=','ieq':'==','iff':'<=>'}[o], show(t.a[1], d+1))
    return '%s(%s)' % (o, ', '.join(show(x, d+1) for x in t.a))

def kids(t):
    if t.op in ('c', 'v', 'bv', 'iv', 'ic'): return ()
    return [x for x in t.a if isinstance(x, T)]

def reach(*ts):
    """reachable nodes in topological (children first) order"""
    seen = set(); st = [t for t in ts if isinstance(t, T)]; out = []
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        for k in kids(t): st.append(k)
    out.sort(key=lambda t: t.id)
    return out

def free_vars(*ts):
    return [t for t in reach(*ts) if t.op in ('v', 'bv', 'iv')]

def subst(t, m):
    """m: T -> T replacement"""
    memo = dict(m)
    for n in reach(t):
        if n in memo: continue
        ks = kids(n)
        if not ks or not any(memo.get(k, k) is not k for k in ks): continue
        memo[n] = rebuild(n, [memo.get(x, x) if isinstance(x, T) else x for x in n.a])
    return memo.get(t, t)

def rebuild(n, a):
    o = n.op
    if o == '+': return add(*a)
    if o == '-': return sub(*a)
    if o == '*': return mul(*a)
    if o == '/': return div(*a)
    if o == 'neg': return neg(*a)
    if o == 'f': return fn(*a)
    if o == 'lt': return lt(*a)
    if o == 'eq': return eq(*a)
    if o == 'same': return same(*a)
    if o == 'not': return not_(*a)
    if o == 'and': return and_(*a)
    if o == 'iff': return iff(*a)
    if o == 'ite': return ite(*a)
    if o == 'bite': return ite_b(*a)
    if o == 'iite': return ite_i(*a)
    if o == 'ieq': return ieq(*[x.a[0] if isinstance(x, T) and x.op == 'ic' else x for x in a])
    raise ValueError(o)
