"""Values of the symbolic executor (immutable trees)."""
from .terms import *

class Unsupported(Exception):
    """the executor cannot follow the code (a tool limit, never a verdict)"""

class Agg:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def __repr__(self): return 'Agg(%s)' % (', '.join(map(repr, self.f)) if len(self.f) < 6 else '%d fields' % len(self.f))
class VecV(Agg):
    __slots__ = ()
class En:
    __slots__ = ('d', 'pay', 'ty')     # d: variant index (int) or T of sort 'i'
    def __init__(self, d, pay, ty=None): self.d = d; self.pay = pay; self.ty = ty
    def __repr__(self): return 'En(%r, %r)' % (self.d, self.pay)
class Ptr:
    __slots__ = ('cell', 'path', 'meta')
    def __init__(self, cell, path=(), meta=None): self.cell = cell; self.path = path; self.meta = meta
    def __repr__(self): return 'Ptr(%r,%r,%r)' % (self.cell, self.path, self.meta)
    def same(self, o): return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path and self.meta == o.meta
class Str:
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Str(%r)' % self.s
class Opq:
    """opaque value (formatting, time, io handles); tag for ghost events"""
    __slots__ = ('tag', 'info')
    def __init__(self, tag='?', info=None): self.tag = tag; self.info = info
    def __repr__(self): return 'Opq(%s)' % self.tag
class FnV:
    __slots__ = ('callee',)
    def __init__(self, callee): self.callee = callee
class Clo:
    __slots__ = ('ty', 'f')
    def __init__(self, ty, f): self.ty = ty; self.f = f
class MapV:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
class It:
    """iterator state: kind + payload tuple"""
    __slots__ = ('k', 'a')
    def __init__(self, k, *a): self.k = k; self.a = a
    def __repr__(self): return 'It(%s)' % self.k
class _Un:
    def __repr__(self): return 'UNINIT'
UNINIT = _Un()
class _Po:
    def __repr__(self): return 'POISON'
POISON = _Po()
UNIT = Agg(())

class Ctx:
    """how lazily created symbolic values are named and filled in"""
    def __init__(self, mir, ov=None, leaf=None):
        self.mir = mir; self.ov = ov or {}; self.leaf = leaf
    def mk(self, name, ty):
        o = self.ov
        if name in o:
            v = o[name]
            return v(self, name, ty) if callable(v) else v
        t = self.mir.types[ty]; k = t['k']
        if self.leaf is not None and k in ('float', 'bool', 'int'):
            v = self.leaf(name, k)
            if v is not None: return v
        if k == 'float': return var(name)
        if k == 'bool': return bvar(name)
        if k == 'int': return ivar(name, ())
        return Lazy(self, name, ty)

class Lazy:
    __slots__ = ('ctx', 'name', 'ty', 'x')
    def __init__(self, ctx, name, ty): self.ctx = ctx; self.name = name; self.ty = ty; self.x = None
    def __repr__(self): return 'Lazy(%s)' % self.name
    def expand(self):
        if self.x is None:
            c = self.ctx; m = c.mir; t = m.types[self.ty]; k = t['k']
            if k == 'struct':
                if t['dn'].startswith('posidonius') or t['dn'].startswith('std::marker'):
                    self.x = Agg(tuple(c.mk(self.name + '.' + f[0], f[1]) for f in t['vs'][0]['f']))
                else: raise Unsupported('symbolic value of foreign type %s (%s)' % (t['n'], self.name))
            elif k == 'tuple': self.x = Agg(tuple(c.mk('%s.%d' % (self.name, i), e) for i, e in enumerate(t['es'])))
            elif k == 'array': self.x = Agg(tuple(c.mk('%s[%d]' % (self.name, i), t['e']) for i in range(t['len'])))
            elif k == 'enum':
                n = len(t['vs'])
                dn = self.name + '.$'
                d = c.ov.get(dn)
                if d is None and c.leaf is not None: d = c.leaf(dn, 'discr')
                if isinstance(d, str): d = [v['n'] for v in t['vs']].index(d)
                if d is None: d = ivar(dn, range(n)) if n > 1 else 0
                self.x = En(d, LazyPay(c, self.name, t), self.ty)
            else: raise Unsupported('symbolic value of type %s (%s)' % (t['n'], self.name))
        return self.x

class LazyPay(dict):
    """payload of a lazily created enum"""
    def __init__(self, ctx, name, t): self.c = ctx; self.name = name; self.t = t
    def __missing__(self, v):
        vs = self.t['vs'][v]
        r = tuple(self.c.mk('%s.%s.%s' % (self.name, vs['n'], f[0]), f[1]) for f in vs['f'])
        self[v] = r
        return r

def force(v):
    return v.expand() if type(v) is Lazy else v
