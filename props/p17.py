"""P17: one WHFast step is the Wisdom-Holman composition in the chosen coordinates (additional effects off)."""
from engine.spec import *
from engine import prover as PR
from props.lib import *
from props.intg import *

WH = 'posidonius::integrator::whfast::WHFast::'
COORDS = ('Jacobi', 'DemocraticHeliocentric', 'WHDS')

# ---------------------------------------------------------------- the Kepler map as an uninterpreted function of (mu, dt, x, v)
KN = ('kepler_x', 'kepler_y', 'kepler_z', 'kepler_vx', 'kepler_vy', 'kepler_vz')
def kepler(mu, dt, x, v):
    a = (mu, dt) + tuple(x) + tuple(v)
    return tuple(fn(k, *a) for k in KN[:3]), tuple(fn(k, *a) for k in KN[3:])

def kepler_num(m, xs):
    """numeric two-body map (used only to read counterexamples)"""
    mu, dt = xs[0], xs[1]; x = xs[2:5]; v = xs[5:8]
    r0 = m.sqrt(sum(a * a for a in x)); v2 = sum(a * a for a in v); eta = sum(a * b for a, b in zip(x, v))
    beta = 2 * mu / r0 - v2
    def cs(z):
        if abs(z) < 1e-3:
            t = [1 - z / 2 + z * z / 24 - z**3 / 720, 1 - z / 6 + z * z / 120 - z**3 / 5040, 0.5 - z / 24 + z * z / 720 - z**3 / 40320, 1 / (z * 0 + 6) - z / 120 + z * z / 5040 - z**3 / 362880]
            return t
        if z > 0:
            s = m.sqrt(z); return [m.cos(s), m.sin(s) / s, (1 - m.cos(s)) / z, (s - m.sin(s)) / (s * z)]
        s = m.sqrt(-z); return [m.cosh(s), m.sinh(s) / s, (m.cosh(s) - 1) / -z, (m.sinh(s) - s) / (s * -z)]
    zeta = mu - beta * r0
    def F(X):
        c = cs(beta * X * X); g1, g2, g3 = X * c[1], X * X * c[2], X**3 * c[3]
        return r0 * X + eta * g2 + zeta * g3 - dt, r0 + eta * g1 + zeta * g2, (g1, g2, g3)
    lo = hi = 0 * dt; w = abs(dt) / r0
    sgn = 1 if dt > 0 else -1
    for _ in range(200):
        hi = hi + sgn * w; w = w * 2
        if F(hi)[0] * sgn >= 0: break
    else: raise ArithmeticError
    for _ in range(70):
        mid = (lo + hi) / 2
        if F(mid)[0] * sgn < 0: lo = mid
        else: hi = mid
    X = (lo + hi) / 2
    for _ in range(3):
        f, fp, _g = F(X); X = X - f / fp
    f, r, (g1, g2, g3) = F(X)
    a, b, ad, bd = -mu * g2 / r0, dt - mu * g3, -mu * g1 / (r0 * r), -mu * g2 / r
    return [p + a * p + b * q for p, q in zip(x, v)] + [q + ad * p + bd * q for p, q in zip(x, v)]
for _i, _k in enumerate(KN): PR.NUMFN[_k] = (lambda i: lambda m, xs: kepler_num(m, xs)[i])(_i)

def c_kepler(c):
    ty = c.mir.ty(MOD['WHFast'])
    def h(ex, st, args, f, where):
        s, i, mu, dt = args
        if type(i) is not int: raise Unsupported('symbolic body index in the Kepler step')
        v = ex.load(st, s)
        def g(p): return lift(vget(v, field_path(c.mir, ty, p)[0]))
        P = 'particles_alternative_coordinates[%d].' % i
        x = [g(P + 'position.' + k) for k in 'xyz']; w = [g(P + 'velocity.' + k) for k in 'xyz']
        x2, w2 = kepler(lift(mu), lift(dt), x, w)
        for k, a, b in zip('xyz', x2, w2):
            v = vput(v, field_path(c.mir, ty, P + 'position.' + k)[0], a)
            v = vput(v, field_path(c.mir, ty, P + 'velocity.' + k)[0], b)
        ex.store(st, s, v)
        return [(st, UNIT)]
    return {WH + 'kepler_individual_step': h}

# ---------------------------------------------------------------- the published maps
class Alt:
    """canonical coordinates of the chosen splitting; slot 0 holds the centre of mass"""
    def __init__(self, coords, m, G): self.c = coords; self.m = m; self.G = G; self.n = len(m); self.M = sum_(m)
    def to(self, x, v):
        m, n = self.m, self.n
        com = lambda y, k: vscale(const(1) / sum_(m[:k]), tuple(sum_(m[j] * y[j][d] for j in range(k)) for d in range(3)))
        X, W = com(x, n), com(v, n)
        if self.c == 'Jacobi':
            return [X] + [vsub(x[i], com(x, i)) for i in range(1, n)], [W] + [vsub(v[i], com(v, i)) for i in range(1, n)]
        V_ = [vsub(v[i], W) for i in range(1, n)]
        if self.c == 'WHDS': V_ = [vscale((m[0] + m[i + 1]) / m[0], V_[i]) for i in range(n - 1)]
        return [X] + [vsub(x[i], x[0]) for i in range(1, n)], [W] + V_
    def back(self, Q, U):
        m, n = self.m, self.n
        if self.c == 'Jacobi':
            x = [None] * n; v = [None] * n; R, S = Q[0], U[0]
            for i in range(n - 1, 0, -1):
                k = m[i] / sum_(m[:i + 1])
                R = vsub(R, vscale(k, Q[i])); S = vsub(S, vscale(k, U[i]))
                x[i] = vadd(R, Q[i]); v[i] = vadd(S, U[i])
            x[0] = R; v[0] = S
            return x, v
        x0 = Q[0]
        for i in range(1, n): x0 = vsub(x0, vscale(m[i] / self.M, Q[i]))
        vb = [U[i] if self.c != 'WHDS' else vscale(m[0] / (m[0] + m[i]), U[i]) for i in range(1, n)]
        v0 = U[0]
        for i in range(1, n): v0 = vsub(v0, vscale(m[i] / m[0], vb[i - 1]))
        return [x0] + [vadd(Q[i], x0) for i in range(1, n)], [v0] + [vadd(w, U[0]) for w in vb]
    def drift(self, Q, U, h):
        """Keplerian motion of every planet, uniform motion of the centre of mass"""
        m, G = self.m, self.G; Q2, U2 = [vadd(Q[0], vscale(h, U[0]))], [U[0]]
        for i in range(1, self.n):
            mu = G * (sum_(m[:i + 1]) if self.c == 'Jacobi' else m[0] if self.c == 'DemocraticHeliocentric' else m[0] + m[i])
            a, b = kepler(mu, h, Q[i], U[i]); Q2.append(a); U2.append(b)
        return Q2, U2
    def jump(self, Q, U, h):
        m, n = self.m, self.n
        if self.c == 'Jacobi': return Q
        if self.c == 'DemocraticHeliocentric':
            p = tuple(sum_(m[i] * U[i][d] for i in range(1, n)) / m[0] for d in range(3))
            return [Q[0]] + [vadd(Q[i], vscale(h, p)) for i in range(1, n)]
        q = [vscale(m[i] / (m[0] + m[i]), U[i]) for i in range(1, n)]
        return [Q[0]] + [vadd(Q[i], vscale(h, tuple(sum_(q[j - 1][d] for j in range(1, n) if j != i) for d in range(3)))) for i in range(1, n)]
    def kick(self, Q, U, x, h):
        m, n, G = self.m, self.n, self.G
        def acc(i, skip):
            a = (const(0),) * 3
            for j in range(n):
                if j == i or skip(i, j): continue
                d = vsub(x[j], x[i]); r2 = dot(d, d)
                a = vadd(a, vscale(G * m[j] / (r2 * sqrt(r2)), d))
            return a
        if self.c == 'Jacobi':
            A = [acc(i, lambda i, j: {i, j} == {0, 1}) for i in range(n)]
            out = [U[0]]
            for i in range(1, n):
                com = vscale(const(1) / sum_(m[:i]), tuple(sum_(m[j] * A[j][d] for j in range(i)) for d in range(3)))
                a = vsub(A[i], com)
                if i > 1:
                    r2 = dot(Q[i], Q[i]) + const_f(1e-12)
                    a = vadd(a, vscale(G * sum_(m[:i + 1]) / (r2 * sqrt(r2)), Q[i]))
                out.append(vadd(U[i], vscale(h, a)))
            return out
        out = [U[0]]
        for i in range(1, n):
            a = acc(i, lambda i, j: 0 in (i, j))
            if self.c == 'WHDS': a = vscale((m[0] + m[i]) / m[0], a)
            out.append(vadd(U[i], vscale(h, a)))
        return out
    def drift_half(self, x, v, h):
        Q, U = self.to(x, v); Q, U = self.drift(Q, U, h); Q = self.jump(Q, U, h)
        return Q, U
    def step(self, x, v, dt):
        h = dt / const(2)
        Q, U = self.drift_half(x, v, h)
        xm, _ = self.back(Q, U)
        U = self.kick(Q, U, xm, dt)
        Q = self.jump(Q, U, h); Q, U = self.drift(Q, U, h)
        return self.back(Q, U)

def whov(c, n, coords):
    G = const(c.mir.const_f64('constants::G'))
    o = {'s.alternative_coordinates_type.$': coords, 's.last_historic_snapshot_time': const(0), 's.historic_snapshot_period': const(10),
         's.last_recovery_snapshot_time': const(0), 's.recovery_snapshot_period': const(10), 's.timestep_warning': 0}
    for i in range(n):
        o['s.universe.particles[%d].mass_g' % i] = G * var('s.universe.particles[%d].mass' % i)
        for k in 'xyz':
            o['s.inertial_velocity_errors[%d].%s' % (i, k)] = const(0); o['s.particle_angular_momentum_errors[%d].%s' % (i, k)] = const(0)
    return o

def check(c):
    std_assumptions(c)
    c.assume('the Keplerian advance of one body is an uninterpreted function of (mu, dt, position, velocity) here; P18 is about it',
             'the compensated-summation terms are zero before the step (they are zero at construction, and this check shows that a step leaves them zero)',
             'mass_g = G mass and half of the time step are stored as such (established by the constructors)')
    c.set_signs(isigns)
    for coords in COORDS:
        for n, mm in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 2)) + (() if c.tier == 'quick' else ((4, 0), (4, 3), (5, 0), (5, 2), (6, 0))):
            c.group('step %s n=%d most massive=%d' % (coords, n, mm), step, c, coords, n, mm)

def step(c, coords, n, mm):
    R = IntRun(c, 'WHFast', 'iterate', '%s n=%d most massive=%d' % (coords, n, mm), n, mm, (), ov=whov(c, n, coords), contracts=c_kepler(c))
    R.r.assume(lt(var('s.current_time'), const(10)))
    R.go(); q = R.r
    order = [mm] + [i for i in range(n) if i != mm]
    p = q.pre('s').universe.particles
    A = Alt(coords, [p[i].mass for i in order], const(c.mir.const_f64('constants::G')))
    x, v = A.step([p[i].inertial_position.xyz for i in order], [p[i].inertial_velocity.xyz for i in order], var('s.time_step'))
    if not q.results: raise Skip('the step does not return')
    for s, _ in q.states():
        a = q.post(s, 's')
        for k, i in enumerate(order):
            for f, w in (('inertial_position', x[k]), ('inertial_velocity', v[k]), ('angular_momentum', p[i].angular_momentum.xyz)):
                for d, g, e in zip('xyz', getattr(a.universe.particles[i], f).xyz, w):
                    c.ob('step %s: %s of body %d.%s' % (q.label, f, i, d), list(s.pc), same(lift(g), lift(e)), info={'path': 's.universe.particles[%d].%s.%s' % (i, f, d), 'got': g, 'want': e}, run=q)
            for e, f in (('inertial_velocity_errors', 'velocity'), ('particle_angular_momentum_errors', 'angular momentum')):
                for d, g in zip('xyz', getattr(a, e)[i].xyz):
                    c.ob('step %s: compensation of %s of body %d.%s stays zero' % (q.label, f, i, d), list(s.pc), same(lift(g), const(0)), run=q)
        w = var('s.current_time') + var('s.time_step')
        c.ob('step %s: time' % q.label, list(s.pc), same(lift(a.current_time), w), info={'path': 's.current_time', 'got': a.current_time, 'want': w}, run=q)
