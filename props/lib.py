"""Shared specification vocabulary."""
from engine.spec import *

GMSUN = None
def std_assumptions(c):
    c.assume('f64 arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinities); libm functions are exact real functions',
             'the MIR exported by mirx from /repo is what rustc compiles; LLVM code generation is trusted')
    c.U = c.mir.ty('particles::universe::Universe')
    c.PT = c.mir.ty('particles::particle::Particle')

def usigns(name):
    if name.endswith('.mass') or name.endswith('.radius') or name.endswith('.mass_g'): return POS
    return ANY

def universe_run(c, fn, label, n, host=0, ov=None, signs=None, contracts=None, **kw):
    o = {'u.n_particles': n, 'u.hosts.index.most_massive': host}
    for i in range(10): o['u.particles[%d].id' % i] = i
    o.update(ov or {})
    return Run(c, fn, label, ov=o, signs=signs, contracts=contracts, **kw)

def ignore(c, v):
    ty = c.mir.ty('particles::universe::IgnoreGravityTerms')
    k = [x['n'] for x in c.mir.types[ty]['vs']].index(v)
    return En(k, {k: ()}, ty)

def axes(p, v): return {p + '.x': v[0], p + '.y': v[1], p + '.z': v[2]}
def sum_(it):
    s = None
    for t in it: s = t if s is None else s + t
    return const(0) if s is None else s
def vsub(a, b): return tuple(x - y for x, y in zip(a, b))
def vadd(a, b): return tuple(x + y for x, y in zip(a, b))
def vscale(k, a): return tuple(k * x for x in a)
def dot(a, b): return sum_(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
def norm(a): return sqrt(dot(a, a))
def newton(u, n, i, G=None, skip=lambda i, j: False):
    """a_i = sum over j of G m_j (x_j - x_i)/|x_j - x_i|^3"""
    if G is None: G = const(u._m.const_f64('constants::G'))
    xi = u.particles[i].inertial_position.xyz
    acc = (const(0),) * 3
    for j in range(n):
        if j == i or skip(i, j): continue
        d = vsub(u.particles[j].inertial_position.xyz, xi)
        r2 = dot(d, d)
        k = G * u.particles[j].mass / (r2 * sqrt(r2))
        acc = vadd(acc, vscale(k, d))
    return acc
def const_f(x): return const(Fraction(x))
def powf(x, e): return fn('pow', x, const_f(e)) if not isinstance(e, T) else fn('pow', x, e)

# ---------------------------------------------------------------- effects at the level of Universe::calculate_additional_effects
EFFECTS = ('tides', 'rotational_flattening', 'general_relativity', 'disk', 'wind', 'evolution')
CAE = 'particles::universe::Universe::calculate_additional_effects'

def esigns(name):
    if name.endswith(('.mass', '.radius', '.mass_g', '.moment_of_inertia')): return POS
    return ANY

class EffRun:
    """calculate_additional_effects on n bodies with the given effects switched on.
    roles: effect -> list of variants, one per body; host: index of the most massive body."""
    def __init__(self, c, label, n, roles, mm, dl=True, acc=True, evolution=False, ov=None, contracts=None, gr_impl=None, spin_known=False, ignored='None', fn=CAE, args=None, pairs=None, considered=None):
        self.c = c; self.n = n; self.roles = roles; self.mm = mm
        o = {}
        on = considered if considered is not None else [e for e in roles if any(v != 'Disabled' for v in roles[e])]
        cen = {e: [i for i, v in enumerate(roles[e]) if v == 'CentralBody'] for e in roles}
        self.hosts = {e: (cen[e][0] if cen[e] else 11) for e in roles}
        for e in EFFECTS: o['u.consider_effects.' + e] = e in on
        if evolution: o['u.consider_effects.evolution'] = True
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'disk', 'wind'):
            for i in range(n): o['u.particles[%d].%s.effect.$' % (i, e)] = roles.get(e, ['Disabled'] * n)[i]
        o['u.hosts.index.most_massive'] = mm
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'disk'):
            h = self.hosts.get(e, 11)
            o['u.hosts.index.' + e] = h
            o['u.hosts.most_massive.' + e] = e in on and h == mm
        if 'tides' not in on and 'rotational_flattening' in on: o['u.hosts.index.tides'] = self.hosts['rotational_flattening']
        o['u.hosts.most_massive.all'] = all(self.hosts.get(e) == mm for e in on if e in ('tides', 'rotational_flattening', 'general_relativity', 'disk'))
        for i in range(n):
            P = 'u.particles[%d].' % i
            if not evolution: o.setdefault(P + 'evolution.$', 'NonEvolving')
            # heliocentric coordinates are up to date (P05)
            if i != mm:
                x = [var(P + 'heliocentric_position.' + k) for k in 'xyz']; v = [var(P + 'heliocentric_velocity.' + k) for k in 'xyz']
                d = norm(x)
                o[P + 'heliocentric_distance'] = d; o[P + 'heliocentric_radial_velocity'] = dot(x, v) / d
                o[P + 'heliocentric_norm_velocity_vector_2'] = dot(v, v); o[P + 'heliocentric_norm_velocity_vector'] = norm(v)
            else:
                for f in ('position.x', 'position.y', 'position.z', 'velocity.x', 'velocity.y', 'velocity.z', 'distance', 'radial_velocity', 'norm_velocity_vector_2', 'norm_velocity_vector'):
                    o[P + 'heliocentric_' + f] = const(0)
            if gr_impl: o[P + 'general_relativity.effect.CentralBody.0.$'] = gr_impl
        o['u.general_relativity_implementation.$'] = gr_impl or 'Disabled'
        o['u.pair_dependent_scaled_dissipation_factor'] = MapV(dict(pairs or {}))
        if ov: o.update(ov)
        r = self.r = universe_run(c, fn, label, n, mm, ov=o, contracts=contracts)
        u = r.root('u', c.U)
        r.args = args(r, u) if args else [u, var('time'), evolution, dl, acc, ignore(c, ignored)]
    def go(self):
        self.r.go()
        return self
    def pos(self, e, i):
        u = self.r.pre('u'); h = self.hosts[e]
        if h == self.mm: return u.particles[i].heliocentric_position.xyz
        return vsub(u.particles[i].inertial_position.xyz, u.particles[h].inertial_position.xyz)
    def vel(self, e, i):
        u = self.r.pre('u'); h = self.hosts[e]
        if h == self.mm: return u.particles[i].heliocentric_velocity.xyz
        return vsub(u.particles[i].inertial_velocity.xyz, u.particles[h].inertial_velocity.xyz)
    def spin(self, i):
        p = self.r.pre('u').particles[i]
        return tuple(x / p.moment_of_inertia for x in p.angular_momentum.xyz)
    def p(self, i): return self.r.pre('u').particles[i]
    def each(self, f):
        for s, _ in self.r.states(): f(s, self.r.post(s, 'u'))
    def vec(self, s, name, got, want):
        for k, g, w in zip('xyz', got.xyz if hasattr(got, 'xyz') else got, want):
            self.num(s, '%s.%s' % (name, k), g, w, got._n + '.' + k if hasattr(got, '_n') else None)
    def num(self, s, name, got, want, path=None):
        self.c.ob('%s %s: %s' % (self.r.fname.split('::')[-1], self.r.label, name), list(s.pc), same(lift(got), lift(want)), info={'path': path, 'got': got, 'want': want} if path else {'got': got, 'want': want}, run=self.r)

def placements(n, full=False):
    """(host index of the effect, index of the most massive body)"""
    out = [(0, 0), (n - 1, n - 1)]
    if n > 2: out.append((1, 1))
    out.append((0, n - 1)); out.append((n - 1, 0))
    if n > 2: out.append((1, 0))
    return out if full else out[:]

def orbiting(n, h, off=()):
    return ['CentralBody' if i == h else 'Disabled' if i in off else 'OrbitingBody' for i in range(n)]
