"""P08: creep tides of coplanar bodies (Folonier et al. 2018, Gomes et al. 2021)."""
from engine.spec import *
from engine import prover as PR
from props.lib import *
from mpmath import mpf
import mpmath, math, json

CR = 'posidonius::effects::tides::creep_coplanar::'
CF = 'posidonius::effects::rotational_flattening::creep_coplanar::'
SHAPE = CR + 'calculate_particle_shape'
ELEM = 'posidonius::tools::calculate_keplerian_orbital_elements'
ANOM = CR + 'calculate_true_anomaly'
PI_ = const(math.pi)
F = Fraction

def signs(n):
    if n in ('a', 'P', 'm', 'mc', 'R', 'eta') or n.endswith(('.mass', '.radius', '.mass_g', '.moment_of_inertia', '.uniform_viscosity_coefficient')): return POS
    if n.startswith('orbit') and n.endswith(('.a', '.P')): return POS
    if n == 'e' or n.startswith('orbit') and n.endswith('.e'): return POS | ZER
    return ANY

def check(c):
    std_assumptions(c)
    c.assume('the orbital elements of a pair are those of P25 (a contract on the conversion); the shape of a body is the one proved here (a contract on the shape, where the forces are computed)',
             'the expansions in eccentricity stop at the 7th power, as published; orbits are ellipses')
    c.set_signs(signs)
    c.group('expansion of the tidal potential', hansen_lemma, c)
    c.group('slow and fast rotation agree at the first order', order_one, c)
    for stiff in (False, True):
        for tide, flat in ((True, False), (False, True), (True, True)):
            for fast in (True, False): c.group('shape%s%s%s%s' % (' tide' if tide else '', ' flattening' if flat else '', ', fast rotation' if fast else ', slow rotation', ', slow relaxation' if stiff else ''), shape, c, stiff, tide, flat, fast)
    c.group('true anomaly', anomaly, c)
    for what in ('tidal', 'flattening'):
        c.group('%s force' % what, force_, c, what); c.group('%s torque' % what, torque, c, what)
    c.group('quadrupole', quadrupole, c)
    for n in (2, 3, 4):
        for h, mm in placements(n):
            for tide, flat in ((True, False), (False, True), (True, True)):
                c.group('bodies n=%d host=%d most massive=%d%s%s' % (n, h, mm, ' tides' if tide else '', ' flattening' if flat else ''), bodies, c, n, h, mm, tide, flat)
    for off in ((1,), (2,)):
        for tide, flat in ((True, False), (False, True)): c.group('body %d without creep%s%s' % (off[0], ' tides' if tide else '', ' flattening' if flat else ''), bodies, c, 3, 0, 0, tide, flat, off)
    for tide, flat in ((True, False), (False, True)): c.group('rigid host%s%s' % (' tides' if tide else '', ' flattening' if flat else ''), bodies, c, 3, 0, 0, tide, flat, (), True)
    c.group('compiled code', compiled, c)

# ---------------------------------------------------------------- Hansen coefficients X_k^{-3,m}, m = 0 and 2, to the 7th power of e
X0 = {0: ((0, F(1)), (2, F(3, 2)), (4, F(15, 8)), (6, F(35, 16))),
      1: ((1, F(3, 2)), (3, F(27, 16)), (5, F(261, 128)), (7, F(14309, 6144))),
      2: ((2, F(9, 4)), (4, F(7, 4)), (6, F(141, 64))),
      3: ((3, F(53, 16)), (5, F(393, 256)), (7, F(24753, 10240))),
      4: ((4, F(77, 16)), (6, F(129, 160))),
      5: ((5, F(1773, 256)), (7, F(-4987, 6144))),
      6: ((6, F(3167, 320)),), 7: ((7, F(432091, 30720)),)}
X2 = {9: ((7, F(12144273, 71680)),), 8: ((6, F(73369, 720)),), 7: ((5, F(228347, 3840)), (7, F(-3071075, 18432))),
      6: ((4, F(533, 16)), (6, F(-13827, 160))), 5: ((3, F(845, 48)), (5, F(-32525, 768)), (7, F(208225, 6144))),
      4: ((2, F(17, 2)), (4, F(-115, 6)), (6, F(601, 48))), 3: ((1, F(7, 2)), (3, F(-123, 16)), (5, F(489, 128)), (7, F(-1763, 2048))),
      2: ((0, F(1)), (2, F(-5, 2)), (4, F(13, 16)), (6, F(-35, 288))), 1: ((1, F(-1, 2)), (3, F(1, 16)), (5, F(-5, 384)), (7, F(-143, 18432))),
      -1: ((3, F(1, 48)), (5, F(11, 768)), (7, F(313, 30720))), -2: ((4, F(1, 24)), (6, F(7, 240))), -3: ((5, F(81, 1280)), (7, F(81, 2048))),
      -4: ((6, F(4, 45)),), -5: ((7, F(15625, 129024)),)}
def poly(p, e):
    def pw(k):
        r = const(1)
        for _ in range(k): r = r * e
        return r
    return sum_(const(q) * pw(k) for k, q in p)

def hansen_lemma(c):
    """the tables are the Fourier coefficients in the mean anomaly of (a/r)^3 and (a/r)^3 e^{2 i f}: exact series in e, recomputed here"""
    N = 7
    def mul(A, B):
        R = {}
        for (a, i), x in A.items():
            for (b, j), y in B.items():
                if i + j <= N: R[a + b, i + j] = R.get((a + b, i + j), 0) + x * y
        return {k: v for k, v in R.items() if v}
    def add(A, B):
        R = dict(A)
        for k, v in B.items(): R[k] = R.get(k, 0) + v
        return {k: v for k, v in R.items() if v}
    sc = lambda A, s: {k: v * s for k, v in A.items()}
    pre = {}; t = F(1)        # (1-e^2)^(-3/2)
    for n in range(N // 2 + 1):
        pre[0, 2 * n] = t; t = t * (F(3, 2) + n) / (n + 1)
    P = {(1, 0): F(1)}        # e^{i f} as a Laurent polynomial in e^{i M}; df/dM = (1 + e cos f)^2 (1-e^2)^(-3/2)
    def gfun(P):
        g = {(0, 0): F(1)}
        for (k, i), v in P.items():
            if i < N:
                for s in (1, -1): g[s * k, i + 1] = g.get((s * k, i + 1), 0) + v / 2
        return {k: v for k, v in g.items() if v}
    for _ in range(N + 1):
        g = gfun(P); rate = mul(mul(g, g), pre)
        W = {(k, i): v / k for (k, i), v in rate.items() if k}
        ok = all(v == (1 if i == 0 else 0) for (k, i), v in rate.items() if k == 0)
        E = {(0, 0): F(1)}; term = dict(E)
        for n in range(1, N + 1): term = sc(mul(term, W), F(1, n)); E = add(E, term)
        P = {(k + 1, i): v for (k, i), v in E.items()}
    g = gfun(P); a3 = mul(mul(mul(g, g), g), mul(pre, pre)); b3 = mul(a3, mul(P, P))
    c.ob('expansion: the true anomaly advances by one turn per period', [], ok)
    for k in range(-8, 9): c.ob('expansion: (a/r)^3, harmonic %d' % k, [], {i: v for (q, i), v in a3.items() if q == k} == dict(X0.get(abs(k), ())))
    for k in range(-7, 11): c.ob('expansion: (a/r)^3 exp 2if, harmonic %d' % k, [], {i: v for (q, i), v in b3.items() if q == k} == dict(X2.get(k, ())))

# ---------------------------------------------------------------- shape
class Body:
    def __init__(self, c, m, mc, R, eta, w, a, P, tide, flat):
        K2 = const_f(c.mir.const_f64('constants::K2')); two = const(2)
        self.n = two * PI_ / P; self.w = w
        self.gamma = const(3) * K2 * m * m / (const(8) * PI_ * R * R * R * R * eta)     # w R / (2 eta), w the specific weight of the surface
        self.rho = const(F(15, 4)) * mc / m * R * R * R / (a * a * a) if tide else const(0)
        self.z = const(F(5, 4)) * w * w * R * R * R / (K2 * m) if flat else const(0)
        self.ratio = mc / (m + mc)

def fast_shape(b, e, M, f):
    """the response gamma/(gamma + i nu) of each harmonic of the equilibrium figure, nu its frequency in the frame of the body"""
    x = y = z = const(0); g = b.gamma; two = const(2)
    for k, p in X2.items():
        nu = const(k) * b.n - two * b.w; th = const(k) * M - two * f; den = g * g + nu * nu; E = poly(p, e)
        x = x + E * g * (g * fn('cos', th) + nu * fn('sin', th)) / den
        y = y + E * g * (g * fn('sin', th) - nu * fn('cos', th)) / den
    for k, p in X0.items():
        nu = const(k) * b.n; E = poly(p, e) * const(2 if k else 1)
        z = z + E * g * (g * fn('cos', const(k) * M) + nu * fn('sin', const(k) * M)) / (g * g + nu * nu)
    return b.rho * x, b.rho * y, b.rho * z / two + b.z

def slow_shape(b, e, M):
    """Folonier et al. (2018), equation 49: the stationary solution, to the second order in e"""
    K = const; one, two = K(1), K(2); C, S = fn('cos', M), fn('sin', M); x = b.n / b.gamma
    al = one - K(3) * b.ratio * b.rho; x2 = x * x; e2 = e * e; d1 = one + x2; da = one + al * al * x2
    rho = b.rho * (one + K(F(3, 2)) * e2 - K(4) * x2 * e2 / da) + K(3) * b.rho * e * (C + x * S) / d1
    zz = b.rho * (K(F(1, 2)) + K(F(3, 4)) * e2) + b.z * (one + K(12) * e2 * (one + al * x2) / (d1 * da) + two * (one - al) * (one - al) * x2 * e2 / da) \
       + K(F(3, 2)) * b.rho * e / d1 * (C * (one - K(16) * b.ratio * x2 * b.z / da) + S * (x + K(8) * b.ratio * x * (one - al * x2) * b.z / da))
    de = K(3) * x * e2 / d1 * (two + (one + al) * x2) / da - two * e * x / da * (C + x * al * S)
    return rho, de, zz

def order_one(c):
    """slow rotation, without the forced libration, is the fast one at synchronism to the first order in e (f = M + 2 e sin M)"""
    K = const; g, n, M = var('gamma'), var('n'), var('M'); one = K(1); x = n / g; C, S = fn('cos', M), fn('sin', M); d = one + x * x
    X = {k: dict(X2[k]) for k in (1, 2, 3)}
    # first-order coefficients of exp(-2if) sum_k X_k exp(ikM) gamma/(gamma + i(k-2)n): -4i sin M, and the harmonics 3 and 1
    up, dn = K(X[3][1]), K(X[1][1])
    re = up * (C + x * S) / d + dn * (C + x * S) / d
    im = -K(4) * S + up * (S - x * C) / d + dn * (-S + x * C) / d
    class B: pass
    b = B(); b.gamma, b.n, b.rho, b.ratio, b.z = g, n, var('rho'), K(0), K(0)
    e = var('e'); rho, de, z = slow_shape(b, e, M)
    at = lambda t, v: subst(t, {e: K(v)})
    def first(t): return (at(t, 1) - at(t, -1)) / K(2)      # odd in e, and the expansions stop at e^2
    c.ob('first order: prolateness', [], same(first(rho), b.rho * re))
    c.ob('first order: lag', [], same(K(2) * first(de), im))
    c.ob('first order: oblateness', [], same(first(z), b.rho * K(dict(X0[1])[1]) * (C + x * S) / d))
    c.ob('zeroth order: prolateness', [], same(at(rho, 0), b.rho)); c.ob('zeroth order: lag', [], same(at(de, 0), K(0))); c.ob('zeroth order: oblateness', [], same(at(z, 0), b.rho / K(2)))

NAMES = ['a', 'e', 'M', 'P', 'm', 'mc', 'R', 'eta', 'w']
def shape(c, stiff, tide, flat, fast):
    seen = []
    def an(ex, st, a, fc, w): seen.append(list(a)); return [(st, var('f'))]
    r = Run(c, SHAPE, '%s%s%s%s' % ('tide ' if tide else '', 'flattening ' if flat else '', 'fast' if fast else 'slow', ' stiff' if stiff else ''), contracts={ANOM: an})
    r.auto_args(NAMES); r.args += [tide, flat]
    a, e, M, P, m, mc, R, eta, w = [var(x) for x in NAMES]
    b = Body(c, m, mc, R, eta, w, a, P, tide, flat)
    r.assume(lt(e, const(1)))
    thr = const_f(0.9) * b.n if stiff else b.n * (const(1) + const(7) * e * e)
    r.assume(lt(b.gamma, b.n) if stiff else le(b.n, b.gamma))
    r.assume(le(thr, w) if fast else lt(w, thr))
    r.go(); r.no_panic()
    f = var('f'); f = ite(lt(f, const(0)), f + const(2) * PI_, f)
    if fast: X, Y, Z = fast_shape(b, e, M, f)
    else:
        rho, de, Z = slow_shape(b, e, M); X, Y = rho * fn('cos', const(2) * de), rho * fn('sin', const(2) * de)
    for st, ret in r.states():
        for k, t in enumerate((X, Y, Z)): r._leaf(st, 'ret.' + ('equatorial prolateness, cosine', 'equatorial prolateness, sine', 'polar oblateness')[k], vget(ret, (k,)), t)
    for q in seen:
        c.ob('%s %s: anomaly' % (r.fname, r.label), [], same(lift(q[0]), e)); c.ob('%s %s: anomaly, mean' % (r.fname, r.label), [], same(lift(q[1]), M))

def anomaly(c):
    for k in range(1, 4 if c.tier == 'quick' else 7):
        r = Run(c, ANOM, 'after %d iterations' % k, maxloop=64); r.auto_args(['e', 'M'])
        e, M = var('e'), var('M'); E = [M]
        for i in range(k): E.append(M + e * fn('sin', E[-1]))
        tol = const_f(1e-13); r.assume(lt(e, const(1)))
        for i in range(k): r.assume(le(fabs(E[i + 1] - E[i]), tol) if i == k - 1 else lt(tol, fabs(E[i + 1] - E[i])))
        r.go(); r.no_panic()
        for st, ret in r.states(): r._leaf(st, 'ret', r.ex.resolve(st, ret), const(2) * fn('atan', powf((const(1) + e) / (const(1) - e), F(1, 2)) * fn('tan', E[k] / const(2))))

# ---------------------------------------------------------------- force and torque of the quadrupole
MOD = {'tidal': ('tides', CR + 'calculate_tidal_force', CR + 'calculate_torque_due_to_tides'), 'flattening': ('rotational_flattening', CF + 'calculate_acceleration_induced_by_rotational_flattering', CF + 'calculate_torque_induced_by_rotational_flattening')}
def K2(c): return const_f(c.mir.const_f64('constants::K2'))
def pull(c, h, p, x, d, sh, what):
    """minus the gradient of the potential of the ellipsoid: radial 0.9 prolateness along the companion + 0.6 oblateness, tangential 0.6 prolateness"""
    s = K2(c) * p.mass * h.mass * p.radius * p.radius / (d * d * d * d); K = const
    rad = -s * (const_f(0.9) * sh[0] + K(F(3, 5)) * sh[2]) if what == 'tidal' else -s * K(F(3, 5)) * sh[2]
    tan = s * K(F(3, 5)) * sh[1] if what == 'tidal' else const(0)
    return (x[0] / d * rad - x[1] / d * tan, x[1] / d * rad + x[0] / d * tan, const(0))
def twist(c, m1, m2, R, y, d): return const(F(3, 5)) * K2(c) * m1 * m2 * R * R * y / (d * d * d)

def quadrupole(c):
    """the force is minus the gradient of G M m R^2 (3 prolateness cos 2(angle) + 2 oblateness) / (10 r^3), with the bulge fixed in space"""
    x, y, ex, ey, z, s = [var(k) for k in ('x', 'y', 'ex', 'ey', 'z', 's')]; K = const
    r = norm((x, y)); r2 = x * x + y * y
    # in the frame of the companion the prolateness is (ex, ey) = bulge turned back by twice the angle of the companion; fixed in space: (ax, ay)
    ct, st = (x * x - y * y) / r2, K(2) * x * y / r2; ax, ay = ex * ct - ey * st, ex * st + ey * ct
    r5 = r * r2 * r2; r7 = r5 * r2
    # U = -s (3 (ax (x^2-y^2) + 2 ay x y) / r^5 + 2 z / r^3) / 10
    q = ax * (x * x - y * y) + K(2) * ay * x * y
    gx = s / K(10) * (K(3) * (K(2) * ax * x + K(2) * ay * y) / r5 - K(15) * q * x / r7 - K(6) * z * x / r5)
    gy = s / K(10) * (K(3) * (-K(2) * ax * y + K(2) * ay * x) / r5 - K(15) * q * y / r7 - K(6) * z * y / r5)
    rad = -s / (r2 * r2) * (K(F(9, 10)) * ex + K(F(3, 5)) * z); tan = s / (r2 * r2) * K(F(3, 5)) * ey
    fx, fy = x / r * rad - y / r * tan, y / r * rad + x / r * tan
    hy = [lt(K(0), r2)]
    c.ob('quadrupole: force along x', hy, same(gx, fx)); c.ob('quadrupole: force along y', hy, same(gy, fy))
    c.ob('quadrupole: the torque on the body is opposite to that of the force on the orbit', hy, same(x * fy - y * fx, K(F(3, 5)) * s * ey / (r * r2)))

def pair(c, fn_, label, what, central=None, contracts=None, ov=None):
    r = Run(c, fn_, label, contracts=contracts, ov=ov)
    r.args = [r.root('h', c.PT), r.root('p', c.PT)] + ([central] if central is not None else [])
    h, p = r.pre('h'), r.pre('p'); E = getattr(p, MOD[what][0])
    return r, h, p, E
def force_(c, what):
    r, h, p, E = pair(c, MOD[what][1], '', what); d = E.parameters.internal.distance
    r.assume(lt(const(0), d)); r.go(); r.no_panic(); f = pull(c, h, p, E.coordinates.position.xyz, d, E.parameters.internal.shape.xyz, what)
    for st, ret in r.states():
        for k in range(3): r._leaf(st, 'ret.' + 'xyz'[k], vget(ret, (k,)), f[k])
def torque(c, what):
    r, h, p, E = pair(c, MOD[what][2], 'of the orbiting body', what, False); d = E.parameters.internal.distance
    r.assume(lt(const(0), d)); r.go(); r.no_panic(); t = (const(0), const(0), twist(c, p.mass, h.mass, p.radius, E.parameters.internal.shape.y, d))
    for st, ret in r.states():
        for k in range(3): r._leaf(st, 'ret.' + 'xyz'[k], vget(ret, (k,)), t[k])

# ---------------------------------------------------------------- all bodies
class Calls:
    """contracts on the conversion to orbital elements and on the shape: fresh results for different arguments"""
    def __init__(self): self.orbits = []; self.shapes = []
    def find(self, tab, a):
        for k, b in enumerate(tab):
            if len(a) == len(b) and all(p is q or p == q for p, q in zip(a, b)): return k
        tab.append(a); return len(tab) - 1
    def elem(self, ex, st, a, fc, w):
        a = [lift(a[0])] + [lift(vget(a[i], (k,))) for i in (1, 2) for k in range(3)]
        k = self.find(self.orbits, a)
        return [(st, Agg(tuple(var('orbit%d.%s' % (k, s)) for s in ('a', 'q', 'e', 'i', 'p', 'n', 'M', 'P'))))]
    def shape(self, ex, st, a, fc, w):
        a = [x if isinstance(x, bool) else lift(x) for x in a]
        k = self.find(self.shapes, a)
        return [(st, Agg(tuple(var('shape%d.%s' % (k, s)) for s in 'xyz')))]
    def contracts(self): return {ELEM: self.elem, SHAPE: self.shape}

def bodies(c, n, h, mm, tide, flat, off=(), rigid=False):
    C = Calls(); ov = {}; roles = {}
    ro = orbiting(n, h, off)
    if tide: roles['tides'] = ro
    if flat: roles['rotational_flattening'] = ro
    MODEL = {'tides': 'CreepCoplanar', 'rotational_flattening': 'CreepCoplanar'}
    for e in roles:
        for i in range(n):
            P = 'u.particles[%d].%s.' % (i, e)
            for v in ('CentralBody', 'OrbitingBody'):
                other = {'tides': 'ConstantTimeLag', 'rotational_flattening': 'OblateSpheroid'}[e]
                ov[P + 'effect.%s.0.$' % v] = other if rigid and i == h else MODEL[e]
            ov[P + 'parameters.internal.' + ('orthogonal_component_of_the_tidal_force_due_to_stellar_tide' if e == 'tides' else 'orthogonal_component_of_the_force_induced_by_star_rotation')] = const(0)   # its initial value, which only the other models change
            if rigid and i == h:     # a host that neither deforms nor dissipates
                for f in ('parameters.internal.scaled_dissipation_factor',): 
                    if e == 'tides': ov[P + f] = const(0)
                ov[P + 'effect.CentralBody.0.%s.0.love_number' % other] = const(0)
    for i in range(n):
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'wind', 'disk'):
            if e not in roles or ro[i] == 'Disabled':
                for k in 'xyz':
                    if e != 'disk': ov['u.particles[%d].%s.parameters.output.dangular_momentum_dt.%s' % (i, e, k)] = const(0)
                    if e not in ('wind',): ov['u.particles[%d].%s.parameters.output.acceleration.%s' % (i, e, k)] = const(0)
    E = EffRun(c, 'creep n=%d host=%d most massive=%d%s%s off=%s%s' % (n, h, mm, ' tides' if tide else '', ' flattening' if flat else '', off, ' rigid host' if rigid else ''), n, roles, mm, ov=ov, contracts=C.contracts())
    E.r.no_replay = True
    for e in roles:
        for i in range(n):
            if ro[i] == 'OrbitingBody': E.r.assume(lt(const(0), dot(E.pos(e, i), E.pos(e, i)))); E.r.assume(not_(eq(norm(E.pos(e, i)), const(0))))
    E.go(); E.r.no_panic()
    # which shapes were asked for, and with what
    def visc(i, e, v): return getattr(E.p(i), e).effect.payload(v).payload('CreepCoplanar').uniform_viscosity_coefficient
    def wanted(i, e, central):
        pr, co = (h, i) if central else (i, h)
        x, v = E.pos(e, i), E.vel(e, i)
        return pr, co, (e == 'tides'), (e != 'tides'), list(x) + list(v), visc(pr, e, 'CentralBody' if central else 'OrbitingBody')
    table = {}
    W = {(e, i, ce): wanted(i, e, ce) for e in roles for i in range(n) if ro[i] == 'OrbitingBody' for ce in ((False,) if rigid else (False, True))}
    for k, a in enumerate(C.shapes):
        # the orbit and the primary identify the request
        q = [key for key, w in W.items() if key not in table and a[4] is E.p(w[0]).mass and a[5] is E.p(w[1]).mass and a[9] is w[2] and a[10] is w[3]]
        c.ob('%s: shape %d is that of a body of the system' % (E.r.label, k), [], bool(q))
        if not q: continue
        key = q[0]; table[key] = k; pr, co, _, _, xv, eta = W[key]
        oi = [j for j in range(len(C.orbits)) if a[0] is var('orbit%d.a' % j)]
        c.ob('%s: shape of body %d raised by %d: an orbit' % (E.r.label, pr, co), [], bool(oi))
        if not oi: continue
        o = 'orbit%d.' % oi[0]; P = C.orbits[oi[0]]
        L = lambda nm, g, w: c.ob('%s: shape of body %d raised by %d (%s): %s' % (E.r.label, pr, co, key[0], nm), [], same(g, w))
        L('mass', P[0], E.p(pr).mass_g + E.p(co).mass_g)
        for j in range(6): L('orbit ' + ('x', 'y', 'z', 'vx', 'vy', 'vz')[j], P[1 + j], xv[j])
        for j, nm in ((0, 'a'), (1, 'e'), (2, 'M'), (3, 'P')): L(nm, a[j], var(o + nm))
        L('radius', a[6], E.p(pr).radius); L('viscosity', a[7], eta); L('spin', a[8], E.spin(pr)[2])
    c.ob('%s: the shape of every deformed body' % E.r.label, [], all(k in table for k in W))
    if not all(k in table for k in W): return
    sh = lambda e, i, ce: tuple(var('shape%d.%s' % (table[e, i, ce], s)) for s in 'xyz')
    def post(s, u):
        for i in range(n):
            acc = (const(0),) * 3; tor = const(0)
            for e in roles:
                what = 'tidal' if e == 'tides' else 'flattening'
                for j in range(n):
                    if ro[j] != 'OrbitingBody' or i not in (j, h): continue
                    d = norm(E.pos(e, j)); f = pull(c, E.p(h), E.p(j), E.pos(e, j), d, sh(e, j, False), what)
                    if i == j: acc = vadd(acc, vscale(const(1) / E.p(j).mass, f)); tor = tor - twist(c, E.p(j).mass, E.p(h).mass, E.p(j).radius, sh(e, j, False)[1], d)
                    else:
                        acc = vadd(acc, vscale(-(const(1) / E.p(h).mass), f))
                        if not rigid: tor = tor - twist(c, E.p(h).mass, E.p(j).mass, E.p(h).radius, sh(e, j, True)[1], d)
            E.vec(s, 'torque on body %d' % i, u.particles[i].dangular_momentum_dt, (const(0), const(0), tor))
            E.vec(s, 'acceleration of body %d' % i, u.particles[i].inertial_additional_acceleration, acc)
    E.each(post)

# ---------------------------------------------------------------- compiled code
def compiled(c):
    """bounded: the compiled shape in machine arithmetic on a fixed set of bodies"""
    from engine import replay as RP
    from fractions import Fraction
    bad = []; r = Run(c, SHAPE, 'compiled'); r.auto_args(NAMES)
    r.args += [r.ctx.mk('tide', r.argty(9)), r.ctx.mk('flat', r.argty(10))]
    try: d = RP.Driver(c.mir, r.F, RP.argspec(r))
    except RP.NoReplay as ex: raise Skip('the driver does not build: %s' % str(ex)[-200:])
    G = c.mir.const_f64('constants::K2'); m, mc, R, P = 3.0e-6, 0.1, 4.3e-5, 4.0; a = (G * (m + mc) * P * P / (4 * math.pi ** 2)) ** (1. / 3); n = 2 * math.pi / P
    many = []
    for e in (0.0, 0.05, 0.2, 0.4):
        for M in (0.0, 0.3, 1.9, 3.4, 5.2):
            for g in (0.1, 3.0, 40.0):       # relaxation factor over mean motion
                eta = 3 * G * m * m / (8 * math.pi * R ** 4 * g * n)
                for w in (0.5, 0.95, 1.3, 3.0, 6.0):
                    for tf in ((True, False), (False, True), (True, True)): many.append([a, e, M, P, m, mc, R, eta, w * n] + list(tf))
    try: out = d.batch(many)
    finally: d.close()
    if len(out) < len(many): bad.append((many[len(out)], 'no result'))
    with mpmath.workdps(30):
        for q, o in zip(many, out):
            g = o.get('ret'); w = exact(G, *q)
            if g: g = [g[k] for k in 'xyz'] if isinstance(g, dict) else g
            if not g or any(z is None for z in g): bad.append((q, g)); continue
            s = max(abs(z) for z in w)
            if max(abs(mpf(x) - y) for x, y in zip(g, w)) > s * mpf(10) ** -10: bad.append((q, 'gives %s instead of %s' % (g, [float(z) for z in w])))
    c.bounded.append('the compiled shape on %d bodies (eccentricities to 0.4, relaxation from 0.1 to 40 mean motions, rotation from 0.5 to 6), to 1e-10' % len(many))
    c.witnesses = [{'obligation': 'compiled shape of (a, e, M, P, m, m of the companion, R, viscosity, spin, tide, flattening) = %s' % a_, 'code_gives': g_} for a_, g_ in bad]
    c.ob('the compiled shapes agree (%s)' % ('%d differ' % len(bad) if bad else 'all'), [], not bad)

def exact(G, a, e, M, P, m, mc, R, eta, w, tide, flat):
    a, e, M, P, m, mc, R, eta, w, G = [mpf(z) for z in (a, e, M, P, m, mc, R, eta, w, G)]; pi = mpmath.pi
    E = mpmath.findroot(lambda z: z - e * mpmath.sin(z) - M, M + e * mpmath.sin(M)) if e else M
    f = 2 * mpmath.atan2(mpmath.sqrt(1 + e) * mpmath.sin(E / 2), mpmath.sqrt(1 - e) * mpmath.cos(E / 2))
    n = 2 * pi / P; g = 3 * G * m * m / (8 * pi * R ** 4 * eta); rho = 15 * mc * R ** 3 / (4 * m * a ** 3) if tide else mpf(0); z = 5 * w * w * R ** 3 / (4 * G * m) if flat else mpf(0)
    thr = mpf('0.9') * n if g < n else n * (1 + 7 * e * e)
    if w < thr:
        q = mc / (m + mc); x = n / g; al = 1 - 3 * q * rho; C, S = mpmath.cos(M), mpmath.sin(M); d1 = 1 + x * x; da = 1 + al * al * x * x
        r_ = rho * (1 + 1.5 * e * e - 4 * x * x * e * e / da) + 3 * rho * e * (C + x * S) / d1
        z_ = rho * (mpf(1) / 2 + mpf(3) / 4 * e * e) + z * (1 + 12 * e * e * (1 + al * x * x) / (d1 * da) + 2 * (1 - al) ** 2 * x * x * e * e / da) + 1.5 * rho * e / d1 * (C * (1 - 16 * q * x * x * z / da) + S * (x + 8 * q * x * (1 - al * x * x) * z / da))
        de = 3 * x * e * e / d1 * (2 + (1 + al) * x * x) / da - 2 * e * x / da * (C + x * al * S)
        return [r_ * mpmath.cos(2 * de), r_ * mpmath.sin(2 * de), z_]
    ev = lambda p: sum(mpf(v.numerator) / v.denominator * e ** k for k, v in p)
    Z = sum(ev(p) * mpmath.expj(k * M - 2 * f) * g / (g + 1j * (k * n - 2 * w)) for k, p in X2.items()) * rho
    z_ = sum((2 if k else 1) * ev(p) * (mpmath.expj(k * M) * g / (g + 1j * k * n)).real for k, p in X0.items()) * rho / 2 + z
    return [Z.real, Z.imag, z_]
