"""Assumed contracts of the standard library (and of time/fmt, whose results are opaque).
Each entry states what the library function does on the executor's values."""
import re
from .terms import *
from .values import *
from . import terms as TM

TABLE = {}
def model(*paths):
    def d(f):
        for p in paths: TABLE[p] = f
        return f
    return d

def some(v): return En(1, {1: (v,)}, None)
NONE = En(0, {0: ()}, None)
def ok(v): return En(0, {0: (v,)}, None)
def err(v): return En(1, {1: (v,)}, None)

OPAQUE = re.compile(r'(^|[<:\s])(posidonius::)?(time::|std::fmt|core::fmt|alloc::fmt|std::io::_print|std::io::_eprint|std::io::stdout|std::time|std::hint::must_use)')
NOOP_PATHS = ('std::mem::drop', 'std::io::_print', 'std::io::_eprint')

def dispatch(ex, st, f, args, where):
    path = f['path'] or ''; name = f['name']
    h = TABLE.get(path)
    if h is not None:
        r = h(ex, st, f, args, where)
        if r is NotImplemented: return r
        return r if type(r) is list else [(st, r)]
    if path in ('std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic_fmt', 'core::panicking::panic', 'std::rt::begin_panic_fmt', 'core::panicking::panic_display', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::panicking::panic_const') or path.startswith('core::panicking::') or path.startswith('core::option::unwrap_failed') or path.startswith('core::option::expect_failed') or path.startswith('core::result::unwrap_failed'):
        msg = '; '.join(a.s for a in args if type(a) is Str) or (str(args[0].info) if args and type(args[0]) is Opq and args[0].info else path)
        return ex.panic(st, msg, where)
    if OPAQUE.search(path) or OPAQUE.search(name):
        if path == 'std::fmt::Arguments::<\'a>::from_str' or path.endswith('Arguments::<\'a>::new'):
            return [(st, Opq('fmt', [a for a in args]))]
        return [(st, Opq(path.rsplit('::', 1)[-1]))]
    # trait methods: std::iter::Iterator::xxx
    if path.startswith('std::iter::Iterator::') or path.startswith('std::iter::DoubleEndedIterator::') or path.startswith('std::iter::ExactSizeIterator::'):
        m = path.rsplit('::', 1)[-1]
        g = ITER.get(m)
        if g is not None: return g(ex, st, f, args, where)
    return NotImplemented

# ---------------------------------------------------------------- floats
def _f1(name):
    def g(ex, st, f, args, where): return TM.fn(name, args[0])
    return g
for _n, _m in [('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('exp', 'exp'), ('acos', 'acos'), ('asin', 'asin'),
               ('atan', 'atan'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh'), ('floor', 'floor'), ('ceil', 'ceil'), ('round', 'round'),
               ('trunc', 'trunc'), ('ln', 'ln'), ('asinh', 'asinh'), ('acosh', 'acosh'), ('atanh', 'atanh'), ('abs', 'abs'), ('cbrt', 'cbrt')]:
    for pre in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::', 'std::f64::math::', 'core::f64::math::'):
        TABLE[pre + _n] = _f1(_m)
def _fm(name):
    def d(f):
        for pre in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::'): TABLE[pre + name] = f
        return f
    return d
@_fm('powi')
def _powi(ex, st, f, a, w):
    if type(a[1]) is int: return TM.powi(a[0], a[1])
    if type(a[1]) is T and a[1].op == 'iite':
        c, x, y = a[1].a
        u = lambda z: z.a[0] if z.op == 'ic' else z
        return ite(c, _powi(ex, st, f, [a[0], u(x)], w), _powi(ex, st, f, [a[0], u(y)], w))
    raise Unsupported('powi with a symbolic exponent')
@_fm('powf')
def _powf(ex, st, f, a, w): return TM.fn('pow', a[0], a[1])
@_fm('atan2')
def _atan2(ex, st, f, a, w): return TM.fn('atan2', a[0], a[1])
@_fm('log')
def _log(ex, st, f, a, w):
    if type(a[0]) is not float and isinstance(a[1], TM.T) and a[1].op == 'c' and float(a[1].a[0]) == 2.718281828459045: return TM.fn('ln', a[0])
    return div(TM.fn('ln', a[0]), TM.fn('ln', a[1]))
@_fm('log10')
def _log10(ex, st, f, a, w): return div(TM.fn('ln', a[0]), TM.fn('ln', a[0] if False else (10.0 if type(a[0]) is float else const(10))))
@_fm('hypot')
def _hypot(ex, st, f, a, w): return TM.fn('sqrt', add(mul(a[0], a[0]), mul(a[1], a[1])))
@_fm('mul_add')
def _muladd(ex, st, f, a, w): return add(mul(a[0], a[1]), a[2])
@_fm('recip')
def _recip(ex, st, f, a, w): return div(const(1) if type(a[0]) is T else 1.0, a[0])
@_fm('sin_cos')
def _sincos(ex, st, f, a, w): return Agg((TM.fn('sin', a[0]), TM.fn('cos', a[0])))
@_fm('min')
def _min(ex, st, f, a, w): return min(a) if type(a[0]) is float and type(a[1]) is float else ite(lt(a[1], a[0]), a[1], a[0])
@_fm('max')
def _max(ex, st, f, a, w): return max(a) if type(a[0]) is float and type(a[1]) is float else ite(lt(a[0], a[1]), a[1], a[0])
@_fm('clamp')
def _clamp(ex, st, f, a, w):
    x = ite(lt(a[0], a[1]), a[1], a[0])
    return ite(lt(a[2], x), a[2], x)
def special(t, names):
    """the literal NaN or infinity itself, or a choice that includes it (arithmetic is that of the reals otherwise)"""
    if t.op == 'neg': return special(t.a[0], names)
    if t.op == 'ite': return ite_b(t.a[0], special(t.a[1], names), special(t.a[2], names))
    return t.op == 'v' and t.a[0] in names
@_fm('is_nan')
def _isnan(ex, st, f, a, w): return a[0] != a[0] if type(a[0]) is float else special(a[0], ('NaN',))
@_fm('is_finite')
def _isfin(ex, st, f, a, w): return (a[0] - a[0] == 0) if type(a[0]) is float else not_(special(a[0], ('NaN', 'inf')))
@_fm('is_infinite')
def _isinf(ex, st, f, a, w): return abs(a[0]) == float('inf') if type(a[0]) is float else special(a[0], ('inf',))
@_fm('is_normal')
def _isnorm(ex, st, f, a, w):
    if type(a[0]) is float: return a[0] == a[0] and abs(a[0]) != float('inf') and abs(a[0]) >= 2.2250738585072014e-308
    return not_(eq(a[0], const(0)))      # finite reals; subnormals are outside real arithmetic
@_fm('signum')
def _signum(ex, st, f, a, w):
    if type(a[0]) is float:
        import math
        return math.copysign(1.0, a[0])
    return ite(lt(a[0], const(0)), const(-1), const(1))
@_fm('is_sign_negative')
def _isneg(ex, st, f, a, w):
    import math
    return math.copysign(1, a[0]) < 0 if type(a[0]) is float else lt(a[0], const(0))
@_fm('is_sign_positive')
def _ispos(ex, st, f, a, w):
    import math
    return math.copysign(1, a[0]) > 0 if type(a[0]) is float else le(const(0), a[0])
@_fm('to_radians')
def _torad(ex, st, f, a, w):
    import math
    return mul(a[0], math.pi / 180 if type(a[0]) is float else const(math.pi / 180))
@_fm('to_degrees')
def _todeg(ex, st, f, a, w):
    import math
    return mul(a[0], 180 / math.pi if type(a[0]) is float else const(180 / math.pi))
@_fm('rem_euclid')
def _remeu(ex, st, f, a, w): return TM.fn('rem_euclid', a[0], a[1])
@_fm('total_cmp')
def _tcmp(ex, st, f, a, w):
    x = ex.load(st, a[0]) if type(a[0]) is Ptr else a[0]; y = ex.load(st, a[1]) if type(a[1]) is Ptr else a[1]
    return _cmp(x, y)
@model('std::cmp::PartialOrd::partial_cmp')
def _pcmp(ex, st, f, a, w):
    x = ex.load(st, a[0]) if type(a[0]) is Ptr else a[0]; y = ex.load(st, a[1]) if type(a[1]) is Ptr else a[1]
    if type(x) in (float, int) or type(x) is T: return some(_cmp(x, y))
    return NotImplemented
def _cmp(x, y):
    if type(x) in (float, int) and type(y) in (float, int): return En(0 if x < y else 1 if x == y else 2, {0: (), 1: (), 2: ()}, None)
    return En(ite_i(lt(x, y), 0, ite_i(eq(x, y), 1, 2)), {0: (), 1: (), 2: ()}, None)

for _op, _fnm in (('Add', TM.add), ('Sub', TM.sub), ('Mul', TM.mul), ('Div', TM.div)):
    def _mk(fnm, op):
        def g(ex, st, f, a, w):
            x = a[0]; y = a[1]
            while type(x) is Ptr: x = ex.load(st, x)
            while type(y) is Ptr: y = ex.load(st, y)
            if type(x) in (T, float) and type(y) in (T, float): return fnm(x, y)
            if type(x) is int and type(y) is int and op in ('Add', 'Sub', 'Mul'): return {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op]
            return NotImplemented
        return g
    TABLE['std::ops::%s::%s' % (_op, _op.lower())] = _mk(_fnm, _op)
    def _mk2(fnm):
        def g(ex, st, f, a, w):
            y = a[1]
            while type(y) is Ptr: y = ex.load(st, y)
            x = ex.load(st, a[0])
            if type(x) in (T, float): ex.store(st, a[0], fnm(x, y)); return UNIT
            return NotImplemented
        return g
    TABLE['std::ops::%sAssign::%s_assign' % (_op, _op.lower())] = _mk2(_fnm)
@model('std::ops::Neg::neg')
def _neg(ex, st, f, a, w):
    x = a[0]
    while type(x) is Ptr: x = ex.load(st, x)
    return neg(x) if type(x) in (T, float) else NotImplemented

# ---------------------------------------------------------------- clone / eq / default / mem
@model('std::clone::Clone::clone')
def _clone(ex, st, f, a, w):
    v = a[0]
    if type(v) is Ptr and v.meta is None: v = ex.load(st, v)
    if type(v) is Ptr:       # clone of a reference, or of a Box
        t = ex.mir.types[f['targs'][0]] if f['targs'] and type(f['targs'][0]) is int else {}
        if t.get('k') == 'box': return Ptr(ex.new_cell(st, ex.load(st, v)))
        return v
    return v
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _eq(ex, st, f, a, w):
    x, y = a
    d = 0
    while type(x) is Ptr and d < 4: x = force(ex.load(st, x)); d += 1
    d = 0
    while type(y) is Ptr and d < 4: y = force(ex.load(st, y)); d += 1
    r = veq(ex, st, x, y)
    if r is NotImplemented: return r
    return not_(r) if f['path'].endswith('::ne') else r
def veq(ex, st, x, y):
    x = force(x); y = force(y)
    if type(x) is Ptr and type(y) is Ptr: x = force(ex.load(st, x)); y = force(ex.load(st, y))
    if isinstance(x, (float,)) or (type(x) is T and x.sort == 'r'): return eq(x, y)
    if type(x) is bool or (type(x) is T and x.sort == 'b'): return iff(x, y)
    if type(x) is int or (type(x) is T and x.sort == 'i'): return ieq(x, y)
    if type(x) is Str and type(y) is Str: return x.s == y.s
    if isinstance(x, Agg) and isinstance(y, Agg):
        if len(x.f) != len(y.f): return False
        r = True
        for p, q in zip(x.f, y.f):
            z = veq(ex, st, p, q)
            if z is NotImplemented: return z
            r = and_(r, z)
            if r is False: return False
        return r
    if type(x) is En and type(y) is En:
        if type(x.d) is int and type(y.d) is int:
            if x.d != y.d: return False
            return veq(ex, st, Agg(x.pay[x.d]), Agg(y.pay[y.d]))
        same_d = ieq(x.d, y.d) if not (type(x.d) is T and type(y.d) is T) else None
        if same_d is None: return NotImplemented
        k = x.d if type(x.d) is int else y.d
        return and_(same_d, veq(ex, st, Agg(x.pay[k]), Agg(y.pay[k])))
    return NotImplemented
@model('std::intrinsics::discriminant_value')
def _dv(ex, st, f, a, w): return ex.discr(force(ex.load(st, a[0])))
@model('std::mem::swap')
def _swap(ex, st, f, a, w):
    x, y = ex.load(st, a[0]), ex.load(st, a[1])
    ex.store(st, a[0], y); ex.store(st, a[1], x); return UNIT
@model('std::mem::replace')
def _replace(ex, st, f, a, w):
    x = ex.load(st, a[0]); ex.store(st, a[0], a[1]); return x
@model('std::mem::take')
def _take(ex, st, f, a, w):
    x = ex.load(st, a[0]); v = force(x)
    ex.store(st, a[0], VecV(()) if type(v) is VecV else NONE if type(v) is En else const(0)); return x
@model('std::mem::drop')
def _drop(ex, st, f, a, w): return UNIT
@model('std::convert::From::from', 'std::convert::Into::into')
def _from(ex, st, f, a, w):
    v = a[0]
    if type(v) is int:
        t = ex.mir.types[f['targs'][0 if f['path'].endswith('from') else 1]]
        if t['k'] == 'float': return float(v) if ex.concrete else const(v)
        return v
    if type(v) in (T, float, Str, Opq, bool): return v
    return NotImplemented
@model('std::string::ToString::to_string', 'std::borrow::ToOwned::to_owned', 'std::string::String::as_str', 'std::string::String::from')
def _tostr(ex, st, f, a, w):
    v = a[0]
    if type(v) is Ptr: v = ex.load(st, v)
    return v if type(v) is Str else Opq('string')
@model('std::default::Default::default')
def _default(ex, st, f, a, w):
    t = ex.mir.types[f['targs'][0]]
    if t['k'] == 'float': return 0.0 if ex.concrete else const(0)
    if t['k'] == 'int': return 0
    if t['k'] == 'bool': return False
    if t['n'].startswith('std::vec::Vec'): return VecV(())
    if 'HashMap<' in t['n']: return MapV({})
    if 'RandomState' in t['n']: return Opq('hasher')
    return NotImplemented
def _int_bounds(ty):
    b = 64 if ty in ('usize', 'isize') else int(ty[1:])
    return (0, (1 << b) - 1) if ty[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
def _imodels():
    for ty in ('usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'):
        lo, hi = _int_bounds(ty); m = hi - lo + 1
        def wrap(x, lo=lo, m=m): return (x - lo) % m + lo
        def opt(x, lo=lo, hi=hi): return some(x) if lo <= x <= hi else NONE
        def clampi(x, lo=lo, hi=hi): return min(max(x, lo), hi)
        T_ = {'abs': lambda x: abs(x), 'signum': lambda x: (x > 0) - (x < 0), 'abs_diff': lambda x, y: abs(x - y), 'pow': lambda x, y: x ** y,
              'unsigned_abs': lambda x: abs(x), 'rem_euclid': lambda x, y: x % abs(y), 'div_euclid': lambda x, y: (x - x % abs(y)) // y,
              'is_power_of_two': lambda x: x > 0 and x & (x - 1) == 0, 'div_ceil': lambda x, y: -(-x // y), 'next_multiple_of': lambda x, y: -(-x // y) * y,
              'count_ones': lambda x: bin(x).count('1')}
        for nm, op in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y)):
            T_['wrapping_' + nm] = lambda x, y, op=op, wrap=wrap: wrap(op(x, y))
            T_['saturating_' + nm] = lambda x, y, op=op, c=clampi: c(op(x, y))
            T_['checked_' + nm] = lambda x, y, op=op, o=opt: o(op(x, y))
            T_['overflowing_' + nm] = lambda x, y, op=op, wrap=wrap: Agg((wrap(op(x, y)), wrap(op(x, y)) != op(x, y)))
        for nm, g in T_.items():
            def h(ex, st, f, a, w, g=g):
                if all(type(x) is int for x in a): return g(*a)
                return NotImplemented
            TABLE['core::num::<impl %s>::%s' % (ty, nm)] = h
_imodels()
def _ordm(fi, pick):
    def g(ex, st, f, a, w):
        if all(type(x) is int for x in a): return fi(*a)
        return NotImplemented
    return g
for _pre in ('std::cmp::Ord::', 'std::cmp::', 'core::cmp::Ord::', 'core::cmp::'):
    TABLE[_pre + 'max'] = _ordm(max, 1); TABLE[_pre + 'min'] = _ordm(min, 0)
TABLE['std::cmp::Ord::clamp'] = _ordm(lambda x, lo, hi: min(max(x, lo), hi), 0)
@model('std::cmp::Ord::cmp')
def _ocmp(ex, st, f, a, w):
    x, y = a
    while type(x) is Ptr: x = ex.load(st, x)
    while type(y) is Ptr: y = ex.load(st, y)
    if type(x) is int and type(y) is int: return En(0 if x < y else 1 if x == y else 2, {0: (), 1: (), 2: ()}, None)
    return NotImplemented
@model('core::num::<impl usize>::wrapping_sub')
def _wsub(ex, st, f, a, w):
    if all(type(x) is int for x in a): return (a[0] - a[1]) % (1 << 64)
    return NotImplemented
@model('core::num::<impl usize>::saturating_sub')
def _ssub(ex, st, f, a, w): return max(0, a[0] - a[1])

# ---------------------------------------------------------------- Option / Result
def unwrap_enum(ex, st, v, good, w, msg):
    v = force(v)
    if type(v) is Opq: return [(st, Opq('unwrap:' + v.tag, v.info))]
    if type(v) is not En: raise Unsupported('unwrap of %r' % (v,))
    c = ex.simp(st, ieq(v.d, good)) if type(v.d) is T else v.d == good
    if c is True: return [(st, v.pay[good][0])]
    if c is False: return ex.panic(st, msg, w)
    p = st.copy(); p.assume(not_(c)); ex.panic(p, msg, w)
    st.assume(c)
    return [(st, v.pay[good][0])]
@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect')
def _ounwrap(ex, st, f, a, w): return unwrap_enum(ex, st, a[0], 1, w, 'Option::unwrap on None' + (': ' + a[1].s if len(a) > 1 and type(a[1]) is Str else ''))
@model('std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect')
def _runwrap(ex, st, f, a, w): return unwrap_enum(ex, st, a[0], 0, w, 'Result::unwrap on Err')
@model('std::option::Option::<T>::is_some')
def _issome(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); return ieq(v.d, 1)
@model('std::option::Option::<T>::is_none')
def _isnone(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); return ieq(v.d, 0)
@model('std::result::Result::<T, E>::is_ok')
def _isok(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); return ieq(v.d, 0)
@model('std::result::Result::<T, E>::is_err')
def _iserr(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); return ieq(v.d, 1)
def _unwrap_or(good):
    def g(ex, st, f, a, w):
        v = force(a[0])
        if type(v) is not En: return NotImplemented
        if type(v.d) is int: return v.pay[good][0] if v.d == good else a[1]
        from .exe import merge_val
        return merge_val(ieq(v.d, good), v.pay[good][0], a[1], False)
    return g
TABLE['std::option::Option::<T>::unwrap_or'] = _unwrap_or(1)
TABLE['std::result::Result::<T, E>::unwrap_or'] = _unwrap_or(0)
@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut')
def _asref(ex, st, f, a, w):
    v = force(ex.load(st, a[0]))
    return En(v.d, {0: (), 1: (Ptr(a[0].cell, a[0].path + (('v', 1), 0)),)}, None)

# ---------------------------------------------------------------- slices, arrays, Vec
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::array::<impl [T; N]>::iter', 'core::array::<impl [T; N]>::iter')
def _iter(ex, st, f, a, w):
    p = a[0]; off, n = ex.span(st, p)
    return It('slice', Ptr(p.cell, p.path), off, off + n)
@model('std::iter::IntoIterator::into_iter')
def _into(ex, st, f, a, w):
    v = a[0]
    if type(v) is It: return v
    if type(v) is Ptr:
        x = force(ex.load(st, v)) if v.meta is None else None
        if type(x) is It: return v
        if type(x) is MapV: return It('vals', tuple(Agg((Ptr(ex.new_cell(st, k)), Ptr(ex.new_cell(st, y)))) for k, y in x.d.items()), 0)
        off, n = ex.span(st, v)
        return It('slice', Ptr(v.cell, v.path), off, off + n)
    v = force(v)
    if type(v) is MapV: raise Unsupported('iteration over a map')
    if isinstance(v, Agg):
        t = ex.mir.types[f['targs'][0]]
        if t['n'].startswith('std::ops::RangeInclusive'): return It('range', v.f[0], v.f[1] + 1)
        if t['n'].startswith('std::ops::Range<'): return It('range', v.f[0], v.f[1])
        if t['n'].startswith('std::ops::RangeFrom'): return It('range', v.f[0], 1 << 62)
        return It('vals', v.f, 0)
    if type(v) is En:
        if type(v.d) is int: return It('vals', v.pay[1] if v.d == 1 else (), 0)
    if type(v) is Opq: return Opq('iter', v.info)
    return NotImplemented
def as_it(ex, st, v):
    """iterator value -> It (ranges are iterators themselves)"""
    if type(v) is It: return v
    v = force(v)
    if isinstance(v, Agg) and len(v.f) == 2 and all(type(x) is int for x in v.f): return It('range', v.f[0], v.f[1])
    if isinstance(v, Agg) and len(v.f) == 3 and all(type(x) in (int, bool) for x in v.f): return It('range', v.f[0], v.f[1] + 1)
    if type(v) is Ptr:
        return It('byref', v)
    raise Unsupported('not an iterator: %r' % (v,))
@model('std::ops::RangeInclusive::<Idx>::new')
def _rinc(ex, st, f, a, w): return Agg((a[0], a[1], False))
@model('core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at')
def _split_at(ex, st, f, a, w):
    p, k = a; off, n = ex.span(st, p)
    if type(k) is not int: raise Unsupported('split_at with a symbolic index')
    if k > n: return ex.panic(st, 'split_at: index out of bounds', w)
    return Agg((Ptr(p.cell, p.path, (off, k)), Ptr(p.cell, p.path, (off + k, n - k))))
@model('core::slice::<impl [T]>::split_first_mut', 'core::slice::<impl [T]>::split_first')
def _split_first(ex, st, f, a, w):
    p = a[0]; off, n = ex.span(st, p)
    if n == 0: return NONE
    return some(Agg((Ptr(p.cell, p.path + (off,)), Ptr(p.cell, p.path, (off + 1, n - 1)))))
@model('core::slice::<impl [T]>::split_last_mut', 'core::slice::<impl [T]>::split_last')
def _split_last(ex, st, f, a, w):
    p = a[0]; off, n = ex.span(st, p)
    if n == 0: return NONE
    return some(Agg((Ptr(p.cell, p.path + (off + n - 1,)), Ptr(p.cell, p.path, (off, n - 1)))))
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _first(ex, st, f, a, w):
    off, n = ex.span(st, a[0])
    return some(Ptr(a[0].cell, a[0].path + (off,))) if n else NONE
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _last(ex, st, f, a, w):
    off, n = ex.span(st, a[0])
    return some(Ptr(a[0].cell, a[0].path + (off + n - 1,))) if n else NONE
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _get(ex, st, f, a, w):
    off, n = ex.span(st, a[0])
    if type(a[1]) is not int: return NotImplemented
    return some(Ptr(a[0].cell, a[0].path + (off + a[1],))) if a[1] < n else NONE
@model('core::slice::<impl [T]>::swap')
def _sswap(ex, st, f, a, w):
    off, n = ex.span(st, a[0]); i, j = a[1], a[2]
    if i >= n or j >= n: return ex.panic(st, 'swap out of bounds', w)
    pi, pj = Ptr(a[0].cell, a[0].path + (off + i,)), Ptr(a[0].cell, a[0].path + (off + j,))
    x, y = ex.load(st, pi), ex.load(st, pj); ex.store(st, pi, y); ex.store(st, pj, x); return UNIT
@model('core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_exact_mut')
def _chunks(ex, st, f, a, w):
    p, k = a; off, n = ex.span(st, p)
    if k == 0: return ex.panic(st, 'chunk size must be non-zero', w)
    out = []
    i = 0
    while i < n:
        m = min(k, n - i)
        if m < k and 'exact' in f['path']: break
        out.append(Ptr(p.cell, p.path, (off + i, m))); i += k
    return It('vals', tuple(out), 0)
@model('core::slice::<impl [T]>::windows')
def _windows(ex, st, f, a, w):
    p, k = a; off, n = ex.span(st, p)
    return It('vals', tuple(Ptr(p.cell, p.path, (off + i, k)) for i in range(max(0, n - k + 1))), 0)
@model('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'std::vec::Vec::<T>::len')
def _len(ex, st, f, a, w):
    if type(a[0]) is Str: return len(a[0].s.encode())
    return ex.span(st, a[0])[1]
@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def _isempty(ex, st, f, a, w): return ex.span(st, a[0])[1] == 0
@model('core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec')
def _tovec(ex, st, f, a, w): return VecV(tuple(ex.load(st, q) for q in ex.elems(st, a[0])))
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _cfs(ex, st, f, a, w):
    x, y = ex.elems(st, a[0]), ex.elems(st, a[1])
    if len(x) != len(y): return ex.panic(st, 'copy_from_slice: lengths differ', w)
    for p, v in zip(x, [ex.load(st, q) for q in y]): ex.store(st, p, v)
    return UNIT
@model('core::slice::<impl [T]>::fill')
def _fill(ex, st, f, a, w):
    for p in ex.elems(st, a[0]): ex.store(st, p, a[1])
    return UNIT
@model('core::slice::<impl [T]>::reverse')
def _reverse(ex, st, f, a, w):
    x = ex.elems(st, a[0]); vs = [ex.load(st, q) for q in x]
    for p, v in zip(x, vs[::-1]): ex.store(st, p, v)
    return UNIT
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def _vnew(ex, st, f, a, w): return VecV(())
@model('std::vec::Vec::<T, A>::push')
def _vpush(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); ex.store(st, a[0], VecV(v.f + (a[1],))); return UNIT
@model('std::vec::Vec::<T, A>::pop')
def _vpop(ex, st, f, a, w):
    v = force(ex.load(st, a[0]))
    if not v.f: return NONE
    ex.store(st, a[0], VecV(v.f[:-1])); return some(v.f[-1])
@model('std::vec::Vec::<T, A>::clear')
def _vclear(ex, st, f, a, w): ex.store(st, a[0], VecV(())); return UNIT
@model('std::vec::Vec::<T, A>::truncate')
def _vtrunc(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); ex.store(st, a[0], VecV(v.f[:a[1]])); return UNIT
@model('std::vec::Vec::<T, A>::insert')
def _vins(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); ex.store(st, a[0], VecV(v.f[:a[1]] + (a[2],) + v.f[a[1]:])); return UNIT
@model('std::vec::Vec::<T, A>::remove')
def _vrem(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); ex.store(st, a[0], VecV(v.f[:a[1]] + v.f[a[1]+1:])); return v.f[a[1]]
@model('std::vec::Vec::<T, A>::drain')
def _vdrain(ex, st, f, a, w):
    v = force(ex.load(st, a[0])); lo, hi = rng_bounds(ex, f, a[1], len(v.f))
    ex.store(st, a[0], VecV(v.f[:lo] + v.f[hi:]))
    return It('vals', v.f[lo:hi], 0)
@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::iter::Extend::extend')
def _vext(ex, st, f, a, w):
    v = force(ex.load(st, a[0]))
    if type(v) is not VecV: return NotImplemented
    if type(a[1]) is It:
        out = []
        for s2, vs, _ in consume(ex, st, a[1], w):
            x = force(ex.load(s2, a[0])); ex.store(s2, a[0], VecV(x.f + tuple(vs))); out.append((s2, UNIT))
        return out
    if type(a[1]) is VecV: ex.store(st, a[0], VecV(v.f + a[1].f)); return UNIT
    ex.store(st, a[0], VecV(v.f + tuple(ex.load(st, q) for q in ex.elems(st, a[1])))); return UNIT
@model('std::vec::from_elem')
def _from_elem(ex, st, f, a, w): return VecV((a[0],) * a[1])
def rng_bounds(ex, f, r, n):
    r = force(r)
    # the range type is among the generic arguments
    names = [ex.mir.types[t]['n'] for t in f['targs'] if type(t) is int]
    s = ' '.join(names) + ' ' + f['name']
    if 'RangeFull' in s: return 0, n
    if 'RangeToInclusive' in s: return 0, r.f[0] + 1
    if 'RangeTo<' in s: return 0, r.f[0]
    if 'RangeFrom<' in s: return r.f[0], n
    if 'RangeInclusive<' in s: return r.f[0], r.f[1] + 1
    if 'Range<' in s: return r.f[0], r.f[1]
    raise Unsupported('range type %s' % s)
@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _index(ex, st, f, a, w):
    p, i = a
    if type(p) is not Ptr: return NotImplemented
    v0 = force(ex.load(st, p)) if p.meta is None else None
    if type(v0) is MapV: return NotImplemented
    if v0 is not None and not isinstance(v0, Agg): return NotImplemented
    off, n = ex.span(st, p)
    if type(i) is int:
        if i >= n or i < 0: return ex.panic(st, 'index out of bounds', w)
        return Ptr(p.cell, p.path + (off + i,))
    if type(i) is T: return Ptr(p.cell, p.path + (('s', i, off, n),))
    lo, hi = rng_bounds(ex, f, i, n)
    if lo > hi or hi > n: return ex.panic(st, 'slice index out of range', w)
    return Ptr(p.cell, p.path, (off + lo, hi - lo))
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow')
def _deref(ex, st, f, a, w):
    p = a[0]
    if type(p) in (Str, Opq): return p
    v = force(ex.load(st, p)) if p.meta is None else None
    if type(v) is VecV: return Ptr(p.cell, p.path, (0, len(v.f)))
    if type(v) is Ptr: return v
    if type(v) in (Str, Opq): return v
    if isinstance(v, Agg): return Ptr(p.cell, p.path, (0, len(v.f)))
    return NotImplemented
@model('std::boxed::Box::<T>::new')
def _boxnew(ex, st, f, a, w): return Ptr(ex.new_cell(st, a[0]))
def _is_disc(d, k):
    if type(d) is int: return d == k
    if d.op == 'iite': return or_(and_(d.a[0], _is_disc(d.a[1], k)), and_(not_(d.a[0]), _is_disc(d.a[2], k)))
    if d.op == 'ic': return d.a[0] == k
    return ieq(d, iconst(k))
@model('core::slice::<impl [T]>::binary_search_by')
def _bsearch(ex, st, f, a, w):
    """on a sorted slice: the position of an element that compares equal, or the only place where the order stays"""
    p = a[0]; off, n = ex.span(st, p); out = []
    case = getattr(ex, 'bsearch_case', None)      # (found, position): a contract that covers the cases one by one
    if case is None and n > 32: raise Unsupported('binary_search_by on %d elements' % n)
    def ask(s, i):      # -> [(state, discriminant)]
        return [(s2, v.d) for s2, v in call_mut(ex, s, a[1], [Ptr(p.cell, p.path + (off + i,))], w)]
    def want(states, i, k):
        r = []
        for s in states:
            for s2, d in ask(s, i):
                if type(d) is int:
                    if d == k: r.append(s2)
                    continue
                cond = _is_disc(d, k)
                if type(cond) is T: cond = ex.simp(s2, cond)
                if cond is False: continue
                if cond is not True: s2.assume(cond)
                r.append(s2)
        return r
    for i in range(n) if case is None else [case[1]] if case[0] else ():
        for s in want([st.copy()], i, 1): out.append((s, ok(i)))
    for i in range(n + 1) if case is None else [case[1]] if not case[0] else ():
        ss = [st.copy()]
        if i > 0: ss = want(ss, i - 1, 0)
        if i < n: ss = want(ss, i, 2)
        for s in ss: out.append((s, err(i)))
    return out
@model('core::slice::<impl [T]>::partition_point')
def _ppoint(ex, st, f, a, w):
    """on a slice that is partitioned by the predicate"""
    p = a[0]; off, n = ex.span(st, p); out = []
    case = getattr(ex, 'bsearch_case', None)
    if case is None and n > 32: raise Unsupported('partition_point on %d elements' % n)
    def want(states, i, b):
        r = []
        for s in states:
            for s2, v in call_mut(ex, s, a[1], [Ptr(p.cell, p.path + (off + i,))], w):
                v = ex.simp(s2, v) if type(v) is T else v
                v = v if b else not_(v)
                if v is False: continue
                if v is not True: s2.assume(v)
                r.append(s2)
        return r
    for i in range(n + 1) if case is None else sorted({case[1], case[1] + case[0]}):
        ss = [st.copy()]
        if i > 0: ss = want(ss, i - 1, True)
        if i < n: ss = want(ss, i, False)
        for s in ss: out.append((s, i))
    return out

# ---------------------------------------------------------------- HashMap with concrete keys
def _key(ex, st, k):
    while type(k) is Ptr: k = ex.load(st, k)
    k = force(k)
    if type(k) is int: return k
    if isinstance(k, Agg): return tuple(_key(ex, st, x) for x in k.f)
    raise Unsupported('map key %r' % (k,))
@model('std::collections::HashMap::<K, V>::new', 'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::HashMap::<K, V, S>::with_capacity_and_hasher', 'std::collections::HashMap::<K, V, S>::with_hasher')
def _hnew(ex, st, f, a, w): return MapV({})
@model('std::collections::HashMap::<K, V, S, A>::insert', 'std::collections::HashMap::<K, V, S>::insert')
def _hins(ex, st, f, a, w):
    m = force(ex.load(st, a[0])); k = _key(ex, st, a[1]); d = dict(m.d); old = d.get(k); d[k] = a[2]
    ex.store(st, a[0], MapV(d)); return some(old) if old is not None else NONE
@model('std::collections::HashMap::<K, V, S, A>::remove', 'std::collections::HashMap::<K, V, S>::remove')
def _hrem(ex, st, f, a, w):
    m = force(ex.load(st, a[0])); k = _key(ex, st, a[1]); d = dict(m.d); old = d.pop(k, None)
    ex.store(st, a[0], MapV(d)); return some(old) if old is not None else NONE
@model('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S>::get')
def _hget(ex, st, f, a, w):
    m = force(ex.load(st, a[0])); k = _key(ex, st, a[1])
    if k not in m.d: return NONE
    return some(Ptr(ex.new_cell(st, m.d[k])))
@model('std::collections::HashMap::<K, V, S, A>::contains_key', 'std::collections::HashMap::<K, V, S>::contains_key')
def _hck(ex, st, f, a, w): return _key(ex, st, a[1]) in force(ex.load(st, a[0])).d
@model('std::collections::HashMap::<K, V, S, A>::clear', 'std::collections::HashMap::<K, V, S>::clear')
def _hclr(ex, st, f, a, w): ex.store(st, a[0], MapV({})); return UNIT
@model('std::collections::HashMap::<K, V, S, A>::len', 'std::collections::HashMap::<K, V, S>::len')
def _hlen(ex, st, f, a, w): return len(force(ex.load(st, a[0])).d)

# ---------------------------------------------------------------- iterators
@model('std::iter::once')
def _once(ex, st, f, a, w): return It('vals', (a[0],), 0)
@model('std::iter::repeat')
def _repeat(ex, st, f, a, w): return It('repeat', a[0])
@model('std::iter::empty')
def _empty(ex, st, f, a, w): return It('vals', (), 0)
@model('std::iter::zip')
def _zipf(ex, st, f, a, w): return It('zip', _into_any(ex, st, a[0]), _into_any(ex, st, a[1]))
def _into_any(ex, st, v):
    if type(v) is It: return v
    if type(v) is Ptr:
        if v.meta is None and type(force(ex.load(st, v))) is It: return It('byref', v)
        off, n = ex.span(st, v); return It('slice', Ptr(v.cell, v.path), off, off + n)
    v = force(v)
    if type(v) is VecV: return It('vals', v.f, 0)
    if isinstance(v, Agg) and len(v.f) == 2 and all(type(x) is int for x in v.f): return It('range', v.f[0], v.f[1])
    if isinstance(v, Agg): return It('vals', v.f, 0)
    raise Unsupported('into_iter of %r' % (v,))

def itlen(it):
    k, a = it.k, it.a
    if k == 'slice': return a[2] - a[1]
    if k == 'range': return max(0, a[1] - a[0])
    if k == 'vals': return len(a[0]) - a[1]
    if k in ('map', 'enum', 'rev', 'copied'): return itlen(a[0])
    if k == 'zip': return min(itlen(a[0]), itlen(a[1]))
    if k == 'chain': return itlen(a[0]) + itlen(a[1])
    if k == 'skip': return max(0, itlen(a[0]) - a[1])
    if k == 'take': return min(itlen(a[0]), a[1])
    if k == 'stepby': return -(-itlen(a[0]) // a[1])
    raise Unsupported('length of iterator %s' % k)

def nxt(ex, st, it, w, back=False):
    """-> list of (st, value or None when exhausted, it')"""
    k, a = it.k, it.a
    if k == 'slice':
        p, i, j = a
        if i >= j: return [(st, None, it)]
        if back: return [(st, Ptr(p.cell, p.path + (j - 1,)), It('slice', p, i, j - 1))]
        return [(st, Ptr(p.cell, p.path + (i,)), It('slice', p, i + 1, j))]
    if k == 'range':
        i, j = a
        if type(i) is not int or type(j) is not int: raise Unsupported('range with symbolic bounds')
        if i >= j: return [(st, None, it)]
        return [(st, j - 1, It('range', i, j - 1))] if back else [(st, i, It('range', i + 1, j))]
    if k == 'vals':
        vs, i = a
        if i >= len(vs): return [(st, None, it)]
        return [(st, vs[-1], It('vals', vs[:-1], i))] if back else [(st, vs[i], It('vals', vs, i + 1))]
    if k == 'repeat': return [(st, a[0], it)]
    if k == 'rev': return [(s, v, It('rev', x)) for s, v, x in nxt(ex, st, a[0], w, not back)]
    if k == 'copied':
        out = []
        for s, v, x in nxt(ex, st, a[0], w, back):
            if v is not None: v = ex.load(s, v)
            out.append((s, v, It('copied', x)))
        return out
    if k == 'enum':
        out = []
        n = itlen(a[0]) if back else None
        for s, v, x in nxt(ex, st, a[0], w, back):
            if v is None: out.append((s, None, It('enum', x, a[1])))
            elif back: out.append((s, Agg((a[1] + n - 1, v)), It('enum', x, a[1])))
            else: out.append((s, Agg((a[1], v)), It('enum', x, a[1] + 1)))
        return out
    if k == 'zip':
        x0, y0 = a
        if back:
            nx, ny = itlen(x0), itlen(y0); m = min(nx, ny)
            for _ in range(nx - m): x0 = nxt(ex, st, x0, w, True)[0][2]
            for _ in range(ny - m): y0 = nxt(ex, st, y0, w, True)[0][2]
        out = []
        for s, v, x in nxt(ex, st, x0, w, back):
            if v is None: out.append((s, None, It('zip', x, y0))); continue
            for s2, u, y in nxt(ex, s, y0, w, back):
                out.append((s2, None if u is None else Agg((v, u)), It('zip', x, y)))
        return out
    if k == 'chain':
        x0, y0 = (a[1], a[0]) if back else (a[0], a[1])
        out = []
        for s, v, x in nxt(ex, st, x0, w, back):
            if v is not None: out.append((s, v, It('chain', y0, x) if back else It('chain', x, y0))); continue
            for s2, u, y in nxt(ex, s, y0, w, back):
                out.append((s2, u, It('chain', y, x) if back else It('chain', x, y)))
        return out
    if k == 'skip':
        x0, n = a
        if back:
            if itlen(x0) <= n: return [(st, None, it)]
            return [(s, v, It('skip', x, n)) for s, v, x in nxt(ex, st, x0, w, True)]
        cur = [(st, x0)]
        for _ in range(n):
            cur = [(s, x) for s0, y in cur for s, v, x in nxt(ex, s0, y, w)]
        return [(s, v, It('skip', x, 0)) for s0, y in cur for s, v, x in nxt(ex, s0, y, w)]
    if k == 'take':
        x0, n = a
        if n <= 0: return [(st, None, it)]
        if back:
            m = itlen(x0)
            for _ in range(max(0, m - n)): x0 = nxt(ex, st, x0, w, True)[0][2]
            return [(s, v, It('take', x, n - 1)) for s, v, x in nxt(ex, st, x0, w, True)]
        return [(s, v, It('take', x, n - 1)) for s, v, x in nxt(ex, st, x0, w)]
    if k == 'stepby':
        x0, n, first = a
        cur = [(st, x0)]
        if not first:
            for _ in range(n - 1): cur = [(s, x) for s0, y in cur for s, v, x in nxt(ex, s0, y, w)]
        return [(s, v, It('stepby', x, n, False)) for s0, y in cur for s, v, x in nxt(ex, s0, y, w)]
    if k == 'map':
        x0, clo = a
        out = []
        for s, v, x in nxt(ex, st, x0, w, back):
            if v is None: out.append((s, None, It('map', x, clo))); continue
            for s2, u in call_mut(ex, s, clo, [v], w): out.append((s2, u, It('map', x, clo)))
        return out
    if k == 'filter':
        x0, clo = a
        out = []; work = [(st, x0)]
        while work:
            s0, y = work.pop()
            for s, v, x in nxt(ex, s0, y, w, back):
                if v is None: out.append((s, None, It('filter', x, clo))); continue
                for s2, b in call_mut(ex, s, clo, [Ptr(ex.new_cell(s, v))], w):
                    b = ex.simp(s2, b) if type(b) is T else b
                    if b is True: out.append((s2, v, It('filter', x, clo)))
                    elif b is False: work.append((s2, x))
                    else:
                        s3 = s2.copy(); s2.assume(b); s3.assume(not_(b))
                        out.append((s2, v, It('filter', x, clo))); work.append((s3, x))
        return out
    if k == 'filter_map':
        x0, clo = a
        out = []; work = [(st, x0)]
        while work:
            s0, y = work.pop()
            for s, v, x in nxt(ex, s0, y, w, back):
                if v is None: out.append((s, None, It('filter_map', x, clo))); continue
                for s2, o in call_mut(ex, s, clo, [v], w):
                    o = force(o)
                    if type(o.d) is not int: raise Unsupported('symbolic filter_map')
                    if o.d == 1: out.append((s2, o.pay[1][0], It('filter_map', x, clo)))
                    else: work.append((s2, x))
        return out
    if k == 'byref':
        p = a[0]
        out = []
        for s, v, x in nxt(ex, st, as_it(ex, st, ex.load(st, p)), w, back):
            ex.store(s, p, x); out.append((s, v, it))
        return out
    raise Unsupported('iterator ' + k)

def call_mut(ex, st, clo, args, w):
    """closures that capture by reference mutate through their pointers, so a value copy suffices;
    closures that own mutable state are not supported"""
    return ex.call_closure(st, clo, args, w)

def consume(ex, st, it, w):
    """-> list of (st, [values], it')"""
    work = [(st, [], it)]; out = []
    while work:
        s, vs, x = work.pop()
        for s2, v, y in nxt(ex, s, x, w):
            if v is None: out.append((s2, vs, y))
            else: work.append((s2, vs + [v], y))
            if len(vs) > 100000: raise Unsupported('unbounded iterator')
    return out

ITER = {}
def it_model(*names):
    def d(f):
        for n in names: ITER[n] = f
        return f
    return d
@it_model('next', 'next_back')
def _next(ex, st, f, a, w):
    p = a[0]
    raw = ex.load(st, p)
    if type(raw) is Opq: return [(st, Opq('item', raw.info))]
    r0 = force(raw)
    if isinstance(r0, Agg) and not isinstance(r0, VecV) and all(type(x) in (int, bool) for x in r0.f) and len(r0.f) == 2:
        i, j = r0.f
        if i >= j: return [(st, NONE)]
        if f['path'].endswith('next_back'): ex.store(st, p, Agg((i, j - 1))); return [(st, some(j - 1))]
        ex.store(st, p, Agg((i + 1, j))); return [(st, some(i))]
    it = as_it(ex, st, r0)
    out = []
    for s, v, x in nxt(ex, st, it, w, f['path'].endswith('next_back')):
        ex.store(s, p, x)
        out.append((s, NONE if v is None else some(v)))
    return out
def _adapt(kind, *extra):
    def g(ex, st, f, a, w):
        return [(st, It(kind, as_it(ex, st, a[0]), *(list(a[1:]) + list(extra))))]
    return g
ITER['enumerate'] = _adapt('enum', 0)
ITER['rev'] = _adapt('rev')
ITER['skip'] = _adapt('skip')
ITER['take'] = _adapt('take')
ITER['map'] = _adapt('map')
ITER['filter'] = _adapt('filter')
ITER['filter_map'] = _adapt('filter_map')
ITER['step_by'] = _adapt('stepby', True)
ITER['cloned'] = ITER['copied'] = _adapt('copied')
ITER['fuse'] = ITER['by_ref_'] = lambda ex, st, f, a, w: [(st, a[0])]
ITER['by_ref'] = lambda ex, st, f, a, w: [(st, a[0])]
@it_model('zip')
def _zip(ex, st, f, a, w): return [(st, It('zip', as_it(ex, st, a[0]), _into_any(ex, st, a[1])))]
@it_model('chain')
def _chain(ex, st, f, a, w): return [(st, It('chain', as_it(ex, st, a[0]), _into_any(ex, st, a[1])))]
@it_model('len', 'count')
def _ilen(ex, st, f, a, w):
    v = a[0]
    if type(v) is Ptr: v = ex.load(st, v)
    if type(v) is Opq: return NotImplemented
    it = as_it(ex, st, v)
    try: return [(st, itlen(it))]
    except Unsupported: return [(s, len(vs)) for s, vs, _ in consume(ex, st, it, w)]
@it_model('fold')
def _fold(ex, st, f, a, w):
    work = [(st, a[1], as_it(ex, st, a[0]))]; out = []
    while work:
        s, acc, it = work.pop()
        for s2, v, y in nxt(ex, s, it, w):
            if v is None: out.append((s2, acc))
            else:
                for s3, r in call_mut(ex, s2, a[2], [acc, v], w): work.append((s3, r, y))
    return out
@it_model('for_each')
def _foreach(ex, st, f, a, w):
    work = [(st, as_it(ex, st, a[0]))]; out = []
    while work:
        s, it = work.pop()
        for s2, v, y in nxt(ex, s, it, w):
            if v is None: out.append((s2, UNIT))
            else:
                for s3, r in call_mut(ex, s2, a[1], [v], w): work.append((s3, y))
    return out
@it_model('size_hint')
def _shint(ex, st, f, a, w):
    v = a[0]
    if type(v) is Ptr: v = ex.load(st, v)
    if type(v) is Opq: return NotImplemented
    n = itlen(as_it(ex, st, v))
    return [(st, Agg((n, some(n))))]
@it_model('try_for_each')
def _tryeach(ex, st, f, a, w):
    v0 = a[0]
    if type(v0) is Ptr: v0 = ex.load(st, v0)
    work = [(st, as_it(ex, st, v0))]; out = []
    while work:
        s, it = work.pop()
        for s2, v, y in nxt(ex, s, it, w):
            if v is None: out.append((s2, ok(UNIT)))
            else:
                for s3, r in call_mut(ex, s2, a[1], [v], w):
                    r = force(r)
                    if type(r) is not En or type(r.d) is not int: raise Unsupported('try_for_each with an undetermined result')
                    if r.d == 0: work.append((s3, y))
                    else: out.append((s3, r))
    return out
@it_model('sum', 'product')
def _sum(ex, st, f, a, w):
    out = []
    for s, vs, _ in consume(ex, st, as_it(ex, st, a[0]), w):
        vs = [ex.load(s, v) if type(v) is Ptr else v for v in vs]
        isf = any(type(v) in (T, float) for v in vs)
        pr = f['path'].endswith('product')
        if not vs:
            t = ex.mir.types[f['targs'][-1]]
            z = 1 if pr else 0
            out.append((s, z if t['k'] == 'int' else (float(z) if ex.concrete else const(z)))); continue
        r = vs[0]
        for v in vs[1:]: r = (mul(r, v) if pr else add(r, v)) if isf else (r * v if pr else r + v)
        out.append((s, r))
    return out
@it_model('collect')
def _collect(ex, st, f, a, w):
    if type(a[0]) is Opq: return [(st, Opq('collect', a[0].info))]
    t = ex.mir.types[f['targs'][-1]]
    if not t['n'].startswith('std::vec::Vec'): return NotImplemented
    return [(s, VecV(tuple(vs))) for s, vs, _ in consume(ex, st, as_it(ex, st, a[0]), w)]
@it_model('last')
def _ilast(ex, st, f, a, w): return [(s, some(vs[-1]) if vs else NONE) for s, vs, _ in consume(ex, st, as_it(ex, st, a[0]), w)]
@it_model('nth')
def _nth(ex, st, f, a, w):
    p = a[0]; cur = [(st, as_it(ex, st, ex.load(st, p)), None)]
    for _ in range(a[1] + 1): cur = [(s2, y, v) for s, it, _ in cur for s2, v, y in nxt(ex, s, it, w)]
    out = []
    for s, it, v in cur: ex.store(s, p, it); out.append((s, NONE if v is None else some(v)))
    return out
def _search(mode):
    def g(ex, st, f, a, w):
        p = a[0]
        isref = type(p) is Ptr
        it = as_it(ex, st, ex.load(st, p) if isref else p)
        work = [(st, it, 0)]; out = []
        while work:
            s, it, n = work.pop()
            for s2, v, y in nxt(ex, s, it, w):
                if v is None:
                    if isref: ex.store(s2, p, y)
                    out.append((s2, {'any': False, 'all': True}.get(mode, NONE))); continue
                arg = Ptr(ex.new_cell(s2, v)) if mode == 'find' else v
                for s3, b in call_mut(ex, s2, a[1], [arg], w):
                    if mode == 'all': b = not_(b)
                    b = ex.simp(s3, b) if type(b) is T else b
                    hit = {'any': True, 'all': False, 'position': some(n), 'find': some(v)}[mode]
                    if b is True:
                        if isref: ex.store(s3, p, y)
                        out.append((s3, hit))
                    elif b is False: work.append((s3, y, n + 1))
                    else:
                        s4 = s3.copy(); s3.assume(b); s4.assume(not_(b))
                        if isref: ex.store(s3, p, y)
                        out.append((s3, hit)); work.append((s4, y, n + 1))
        return out
    return g
for _m in ('any', 'all', 'position', 'find'): ITER[_m] = _search(_m)
def _best(mode):
    def g(ex, st, f, a, w):
        out = []
        for s, vs, _ in consume(ex, st, as_it(ex, st, a[0]), w):
            if not vs: out.append((s, NONE)); continue
            if not all(type(v) is int for v in vs): return NotImplemented
            out.append((s, some(max(vs) if mode == 'max' else min(vs))))
        return out
    return g
ITER['max'] = _best('max'); ITER['min'] = _best('min')
