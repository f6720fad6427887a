"""P20: an IAS15 step integrates forces given by polynomials exactly (order 15 in velocity), with the error control of the method."""
from engine.spec import *
from engine import prover as PR
from props.lib import *
from props.intg import *
import itertools, math

M7 = MOD['Ias15'] + '::'
B = ['b', 'br', 'e', 'er', 'g']

def check(c):
    std_assumptions(c)
    c.assume('the nodes and coefficients of the method, written with 25 digits, stand for the exact numbers they round (each matched within 1e-13)',
             'a case is every input whose error tests (accepted, rejected, converged, skipped as slow) come out as for the sample input of the case; samples lie on both sides of each threshold')
    c.set_signs(signs)
    nodes(c)
    for n, mm in ((2, 0), (3, 1)):
        for co in [(0, 'x'), (1, 'y'), (n - 1, 'z')]:
            for rho in (0.251, 0.999, 1.001, 3.99, 4.01, 30.0) if n == 2 else (0.6, 2.0):
                c.group('forces on body %d%s of %d, next step %s' % (co + (n, rho)), step, c, n, mm, (co,), (), (rho,))
    for co in [(0, 'x'), (1, 'y'), (1, 'z')]: c.group('torque on body %d%s' % co, step, c, 2, 0, (), (co,), (0.7,))
    c.group('torque on the third body', step, c, 3, 2, (), ((2, 'y'),), (1.5,))
    c.group('force and torque', step, c, 2, 0, ((0, 'y'),), ((0, 'y'),), (2.0,))
    c.group('force and torque of different bodies', step, c, 3, 0, ((2, 'x'),), ((1, 'z'),), (0.7,))
    c.group('two forces', step, c, 2, 1, ((0, 'x'), (1, 'z')), (), (0.7,))
    c.group('two forces, the larger first', step, c, 2, 1, ((0, 'x'), (1, 'z')), (), (0.7,), top=0)
    c.group('two torques', step, c, 2, 1, (), ((0, 'x'), (1, 'z')), (0.7,))
    c.group('two torques, the larger first', step, c, 2, 1, (), ((0, 'x'), (1, 'z')), (0.7,), top=0)
    for f in ((0, 'x'), (1, 'y'), (1, 'z')): c.group('rejected step, force on body %d%s' % f, step, c, 2, 0, (f,), (), (0.249, 0.7))
    c.group('twice rejected', step, c, 2, 0, ((0, 'y'),), (), (0.2, 0.2, 0.5))
    for f in ((0, 'x'), (1, 'y'), (1, 'z')): c.group('rejected step, torque on body %d%s' % f, step, c, 2, 0, (), (f,), (0.1, 0.7))
    c.group('rejected first step', step, c, 2, 0, ((0, 'x'),), (), (0.2, 2.0), first=True)
    c.group('first step', step, c, 2, 0, ((0, 'x'),), (), (2.0,), first=True)
    for e in EFFS: c.group('torque with %s' % e, step, c, 2, 0, (), ((1, 'x'),), (0.7,), eff=e)
    c.group('no torque is integrated without effects', step, c, 2, 0, ((1, 'x'),), (), (0.7,), eff=None)
    c.group('a body at rest', step, c, 2, 0, ((0, 'x'), (1, 'z')), (), (0.7,), slow=1, top=0)
    c.group('a moving body', step, c, 2, 0, ((0, 'x'), (1, 'z')), (), (0.7,), slow=0, top=1)
    c.group('no forces', step, c, 2, 0, (), (), ())
    for conv in ('converges late', 'converges never', 'oscillates'): c.group('rounds: ' + conv, rounds, c, conv)
    c.group('one round suffices', step, c, 2, 0, ((0, 'x'),), (), (0.7,), near=5e-17)
    c.group('one round does not suffice', step, c, 2, 0, ((0, 'x'),), (), (0.7,), near=2e-16)
    c.group('order 15', order, c)
    c.group('seventh root', root, c)
    c.group('compensated addition', add, c)
    for spin in (False, True):
        for big in (False, True): c.group('prediction, spin %s, large step %s' % (spin, big), predict, c, spin, big)

EFFS = ('tides', 'rotational_flattening', 'evolution', 'general_relativity', 'wind')
def signs(name):
    if name.startswith('dt'): return POS
    return isigns(name)

# ---------------------------------------------------------------- the numbers of the method
def nodes(c):
    """Radau spacings: the roots of P_7 + P_8 on [0, 1] in increasing order, and the coefficients derived from them"""
    import mpmath
    with mpmath.workdps(50):
        p = lambda x: mpmath.legendre(7, x) + mpmath.legendre(8, x)
        import numpy as np
        r7 = np.polynomial.legendre.leg2poly([0] * 7 + [1]); r8 = np.polynomial.legendre.leg2poly([0] * 8 + [1])
        rs = sorted(np.roots(np.polynomial.polynomial.polyadd(r7, r8)[::-1]).real)
        xs = [mpmath.findroot(p, x) for x in rs if x > -0.999]
        h = [Fraction(0)] + [Fraction(str(mpmath.nstr((x + 1) / 2, 45))) for x in xs]
    c.h = h
    ideal = {}
    def add(x): ideal[float(x)] = x
    for x in h[1:]: add(x)
    for j in range(1, 8):
        for k in range(j): add(h[j] - h[k])
    # g -> b: prod_{k<=j} (x - h_k) / x = sum_i C_{j,i} x^i; b -> g: x^j = sum_i D_{j,i} prod_{k<=i} (x - h_k)
    C = {}; D = {}
    poly = [Fraction(1)]
    for j in range(1, 8):
        for i, x in enumerate(poly[:-1]): C[j, i] = x; add(x)
        if j < 7:
            np_ = [Fraction(0)] * (len(poly) + 1)
            for i, x in enumerate(poly): np_[i + 1] += x; np_[i] -= h[j] * x
            poly = np_
    # complete homogeneous symmetric polynomials
    def hom(d, xs):
        if d == 0: return Fraction(1)
        if not xs: return Fraction(0)
        return hom(d, xs[:-1]) + xs[-1] * hom(d - 1, xs)
    for j in range(1, 7):
        for i in range(j): add(hom(j - i, h[1:i + 2]))
    keys = sorted(ideal); c.ideal_used = set()
    import bisect
    def lookup(x):
        for s in (1, -1):
            k = bisect.bisect(keys, s * x)
            for y in keys[max(0, k - 1):k + 1]:
                if y and abs(y - s * x) <= 1e-13 * abs(y) and abs(x) not in (1.0, 2.0):
                    c.ideal_used.add(y); return const(s * ideal[y])
        return const(x)
    c.ideal = lookup

def pow_(x, k):
    r = const(1)
    for _ in range(k): r = r * x
    return r


def pow_(x, k):
    r = const(1)
    for _ in range(k): r = r * x
    return r
def lin(co): return 3 * co[0] + 'xyz'.index(co[1])

class Env(dict):
    """the sample input: chosen values, and values of order one for the rest"""
    def __contains__(self, n): return True
    def __missing__(self, n):
        import hashlib
        h = int.from_bytes(hashlib.blake2b(n.encode(), digest_size=8).digest(), 'little')
        x = mpf(h % 9973) / 9973 + 0.5
        if signs(n) != POS and h & 1 << 40: x = -x
        self[n] = x
        return x
def mpf(x):
    import mpmath
    return mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mpmath.mpf(x)

class Forces:
    """acceleration and torque of the chosen coordinates are polynomials of time, the others vanish"""
    def __init__(self, c, n, acc, tor, deg, bump=False):
        self.c = c; self.n = n; self.acc = acc; self.tor = tor; self.deg = deg; self.bump = bump
        self.t0 = var('s.current_time'); self.dt = var('s.time_step'); self.env = Env()
        self.env['s.current_time'] = mpf(3); self.env['s.time_step'] = mpf(1) / 64; self.env['s.universe.time_limit'] = mpf(10 ** 9)
        self.calls = 0
    def coef(self, kind, co): return [var('%s%d%s_%d' % ((kind,) + co + (j,))) for j in range(self.deg + 1)]
    def at(self, kind, co, t):
        x = (t - self.t0) / self.dt
        cs = self.coef(kind, co)
        r = const(0)
        for j in range(1, self.deg + 1): r = r + cs[j] * pow_(x, j)
        return r
    def total(self, kind, co, t): return self.coef(kind, co)[0] + self.at(kind, co, t)
    def contracts(self):
        uty = self.c.U; m = self.c.mir
        def put(v, p, x): return vput(v, field_path(m, uty, p)[0], x)
        def gravity(ex, st, a, f, w):
            v = ex.load(st, a[0])
            for i in range(self.n):
                for k in 'xyz': v = put(v, 'particles[%d].inertial_acceleration.%s' % (i, k), self.coef('a', (i, k))[0] if (i, k) in self.acc else const(0))
            ex.store(st, a[0], v)
            return [(st, UNIT)]
        def effects(ex, st, a, f, w):
            u, time, evol, dl, acc, ign = a
            v = ex.load(st, u)
            if evol is not True or dl is not True or acc is not True: raise Skip('the forces of a substep are not requested in full')
            ex.event(st, 'forces', time, [[vget(v, field_path(m, uty, 'particles[%d].%s.%s' % (i, q, k))[0]) for q in ('inertial_position', 'inertial_velocity', 'angular_momentum') for k in 'xyz'] for i in range(self.n)])
            extra = const(0)
            if self.bump and self.calls and self.calls % 7 == 0: extra = var('e%d' % (self.calls // 7))
            self.calls += 1
            for i in range(self.n):
                for k in 'xyz':
                    v = put(v, 'particles[%d].inertial_additional_acceleration.%s' % (i, k), self.at('a', (i, k), time) + extra if (i, k) in self.acc else const(0))
                    v = put(v, 'particles[%d].dangular_momentum_dt.%s' % (i, k), self.total('l', (i, k), time) if (i, k) in self.tor else const(0))
            ex.store(st, u, v)
            return [(st, UNIT)]
        def add_cs(ex, st, a, f, w): return [(st, Agg((a[1] + a[3] - a[2], const(0))))]
        def sqrt7(ex, st, a, f, w): return [(st, fn('root7', a[1]))]
        P = 'posidonius::' + UN
        return {P + 'gravity_calculate_acceleration': gravity, P + 'calculate_additional_effects': effects, 'posidonius::' + M7 + 'add_cs': add_cs, 'posidonius::' + M7 + 'sqrt7': sqrt7}
    def exact(self, kind, co, tau, x0, v0=None, upto=None):
        """the integral of the polynomial over tau from t0; twice if v0 is given"""
        cs = self.coef(kind, co); r = const(0)
        for j, a in enumerate(cs[:upto]):
            d = (j + 1) if v0 is None else (j + 1) * (j + 2)
            r = r + a * pow_(tau, j + (1 if v0 is None else 2)) / pow_(self.dt, j) / const(d)
        return x0 + r if v0 is None else x0 + v0 * tau + r
def root7(m, xs):
    if hasattr(m, 'mpf'): return m.root(xs[0], 7) if xs[0] > 0 else -m.root(-xs[0], 7)
    return math.copysign(abs(xs[0]) ** (1 / 7), xs[0])
PR.NUMFN['root7'] = root7

def setup(c, label, n, mm, acc, tor, eff, deg, first=False, bump=False):
    F = Forces(c, n, acc, tor, deg, bump)
    ov = {'s.n_particles': n, 's.integrator_iterations_max_exceeded': 5, 's.last_historic_snapshot_time': const(0), 's.historic_snapshot_period': const(10), 's.last_recovery_snapshot_time': const(0), 's.recovery_snapshot_period': const(10)}
    active = {lin(x) for x in acc}; sactive = {lin(x) for x in tor}
    for j in range(30):
        for q in range(7):
            for w in B:
                if j not in active or first and w != 'g': ov['s.%s_%d[%d]' % (w, q, j)] = const(0)
                if j not in sactive or first and w != 'g': ov['s.s%s_%d[%d]' % (w, q, j)] = const(0)
    for j in range(30):
        if j not in sactive: ov['s.css[%d]' % j] = const(0)
    if first: ov['s.time_step_last_success'] = const(0)
    if eff: ov['s.universe.consider_effects.' + eff] = True
    if eff == 'general_relativity': ov['s.universe.general_relativity_implementation.$'] = 'Kidder1995'
    R = IntRun(c, 'Ias15', 'iterate', label, n, mm, (), ov=ov, contracts=F.contracts())
    R.r.ex.ideal = c.ideal
    R.F = F; R.eff = eff; R.first = first
    return R

def start(kind, co): return var('s.%s_6[%d]' % ('b' if kind == 'a' else 'sb', lin(co)))

def step(c, n, mm, acc, tor, rhos, eff='wind', first=False, top=-1, slow=None, near=None):
    """rhos: the ratios of proposed to tried step, for the sample input, of each pass"""
    L = 'n=%d most massive=%d force on %s torque on %s, step ratios %s%s%s' % (n, mm, acc, tor, rhos, ' with %s' % eff if eff else '', ' first' if first else '') + (' largest %d' % top if len(acc) + len(tor) > 1 else '') + (' body %d at rest' % slow if slow is not None else '') + (' start %g' % near if near else '')
    import mpmath
    with mpmath.workdps(60):
        R = setup(c, L, n, mm, acc, tor, eff, 7, first)
        F = R.F; r = R.r; env = F.env
        act = [('a', co) for co in acc] + [('l', co) for co in tor]
        h7 = mpf(c.h[7])
        if slow is not None:
            for k in 'xyz': env['s.universe.particles[%d].inertial_position.%s' % (slow, k)] = mpf(10) ** 9
        # sample coefficients: the first pass proposes rhos[0]; later ones follow from the same polynomial, so the value at the end is set by a_1
        if act:
            kind, co = act[top]
            pick(c, F, kind, co, [mpf(x) for x in rhos])
            for k2, co2 in act:
                if (k2, co2) == (kind, co): continue
                for j in range(8): env['%s%d%s_%d' % ((k2,) + co2 + (j,))] = env['%s%d%s_%d' % ((kind,) + co + (j,))] / 3
                if slow == co2[0]: env['%s%d%s_7' % ((k2,) + co2)] = 3 * env['%s%d%s_7' % ((kind,) + co)]
            if rhos[-1] > 10: env[start(kind, co).a[0]] = -mpf(10) ** 9
            if near:
                a = [env[str(x.a[0])] for x in F.coef(kind, co)]
                env[start(kind, co).a[0]] = a[7] - near * abs(sum(a[j] * h7 ** j for j in range(8)))
        r.ex.guide = PR.Num(env, 'mp', 1e-40)
        R.go()
    # the steps tried
    D = F.dt; passes = []
    for i in range(max(1, len(rhos))):
        if act:
            k, co = act[top]
            b6 = F.coef(k, co)[7] * pow_(D / F.dt, 7); a7 = F.total(k, co, F.t0 + D * const(c.h[7]))
            rho = fn('root7', const_f(1e-6) / (fn_abs(b6) / fn_abs(a7)))
        else: rho = const(4)
        passes.append(D)
        if i < len(rhos) - 1: D = rho * D
    if act and rhos[-1] > 4: rho = const(4)
    finish(c, R, D, rho * D, len(passes), 1 if near and near < 1e-16 or not act else 2)

def pick(c, F, kind, co, rhos):
    """sample coefficients for which the passes propose the given ratios: b6 / a7 = 1e-6 / rho^7 in each pass"""
    import mpmath
    env = F.env; h7 = mpf(c.h[7])
    name = lambda j: '%s%d%s_%d' % ((kind,) + co + (j,))
    N = len(rhos)
    # unknowns: a_0 .. a_{N-1}; a_7 = 1, the others small and fixed; pass i has D_i = dt rhos[0] ... rhos[i-1]
    fix = {j: mpf(j) / 7000000 for j in range(N, 7)}; fix[7] = mpf(1)
    x = mpf(1); A = mpmath.matrix(N, N); y = mpmath.matrix(N, 1)
    for i in range(N):
        t = x * h7
        y[i] = x ** 7 / (mpf(10) ** -6 / rhos[i] ** 7) - sum(a * t ** j for j, a in fix.items())
        for j in range(N): A[i, j] = t ** j
        x = x * rhos[i]
    sol = mpmath.lu_solve(A, y)
    for j in range(N): env[name(j)] = sol[j]
    for j, a in fix.items(): env[name(j)] = a

def fn_abs(x): return fn('abs', x)
def trajectory(R, i, tau):
    """position, velocity and angular momentum of body i after tau, for forces followed exactly"""
    F = R.F; P = 's.universe.particles[%d].' % i; xs = []; vs = []; ls = []
    for k in 'xyz':
        j = lin((i, k)); v = var(P + 'inertial_velocity.' + k); l = var(P + 'angular_momentum.' + k)
        x0 = var(P + 'inertial_position.' + k) - var('s.csx[%d]' % j); v0 = v - var('s.csv[%d]' % j)
        if (i, k) in F.acc: xs.append(F.exact('a', (i, k), tau, x0, v)); vs.append(F.exact('a', (i, k), tau, v0))
        else: xs.append(x0 + v * tau); vs.append(v0)
        ls.append(F.exact('l', (i, k), tau, l - var('s.css[%d]' % j)) if (i, k) in F.tor else l)
    return xs, vs, ls

def finish(c, R, D, nxt, npass, nround):
    F = R.F; n = F.n; q = R.r
    for s, v in q.results:
        a = q.post(s, 's')
        for i in range(n):
            p = a.universe.particles[i]; P = 's.universe.particles[%d].' % i
            xs, vs, ls = trajectory(R, i, D)
            for k, x, w, l in zip('xyz', xs, vs, ls):
                j = lin((i, k))
                q._leaf(s, P + 'inertial_position.' + k, getattr(p.inertial_position, k) - a.csx[j], x)
                q._leaf(s, P + 'inertial_velocity.' + k, getattr(p.inertial_velocity, k) - a.csv[j], w)
                q._leaf(s, P + 'angular_momentum.' + k, getattr(p.angular_momentum, k) - (a.css[j] if (i, k) in F.tor else const(0)), l)
        q._leaf(s, 's.current_time', a.current_time, F.t0 + D)
        if F.acc or F.tor: q._leaf(s, 's.time_step', a.time_step, nxt)      # without forces: the quotient 0/0 of IEEE arithmetic
        if npass == 1:
            for kind, p_, co in [('a', '', x) for x in F.acc] + [('l', 's', x) for x in F.tor]:
                cs = F.coef(kind, co)[1:]; j0 = lin(co)
                for j in range(7):
                    e = reexp(cs, nxt / D, j); w = var('s.%se_%d[%d]' % (p_, j, j0)) if not R.first else const(0)
                    q._leaf(s, 's.%sb_%d[%d]' % (p_, j, j0), getattr(a, '%sb_%d' % (p_, j))[j0], e + cs[j] - w)
        q._leaf(s, 's.time_step_last_success', a.time_step_last_success, D)
        # the forces of the last round of the step were taken on the exact trajectory
        ev = [e.args for e in s.trace if e.name == 'forces']
        c.ob('%s %s: the last round has seven evaluations of the forces, after those that start the step' % (q.fname, q.label), q.hyps, len(ev) >= 1 + 7 * nround, run=q)
        if len(ev) < 1 + 7 * nround: continue
        if nround == 1: continue
        for m, (t, st) in enumerate(ev[-7:]):
            tau = D * const(c.h[m + 1])
            q._leaf(s, 'time of substep %d' % (m + 1), t, F.t0 + tau)
            for i in range(n):
                for nm, g, w in zip(('x', 'y', 'z', 'vx', 'vy', 'vz', 'lx', 'ly', 'lz'), st[i], [y for z in trajectory(R, i, tau) for y in z]):
                    q._leaf(s, 'body %d: %s at substep %d' % (i, nm, m + 1), g, w)
    q.no_panic()
    c.ob('%s %s: the step is taken' % (q.fname, q.label), q.hyps, bool(q.results), run=q)

def rounds(c, conv):
    """forces that change from round to round: the round after which the step is taken"""
    import mpmath
    co = (0, 'x')
    with mpmath.workdps(60):
        R = setup(c, conv, 2, 0, (co,), (), 'wind', 7, False, True)
        F = R.F; env = F.env
        pick(c, F, 'a', co, [mpf(1) / 2])
        # bump of round r: e_r at the last node, so g_6 changes by (e_r - e_{r-1}) / prod (h7 - h_k)
        a7 = sum(env['a0x_%d' % j] * mpf(c.h[7]) ** j for j in range(8))
        N = mpf(1)
        for x in c.h[:7]: N *= mpf(c.h[7]) - mpf(x)
        if conv == 'converges late': errs = [1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 1e-17]; want = 6
        elif conv == 'converges never': errs = [1e-2 * 0.4 ** r for r in range(20)]; want = 12
        else: errs = [1e-2, 2e-3, 1e-3, 1.01e-3] + [1e-4] * 20; want = 4
        b = env['a0x_7']; e = mpf(0)
        env[start('a', co).a[0]] = b - mpf(errs[0]) * a7
        env['e1'] = mpf(0)
        for r in range(1, len(errs)):
            # error of round r+1: |g6 change| / |a7 + e|, as the bump is tiny this is e / N / a7 up to a factor near 1
            e = e + mpf(errs[r]) * a7 * N; env['e%d' % (r + 1)] = e
        R.r.ex.guide = PR.Num(env, 'mp', 1e-40)
        R.go()
    q = R.r
    for s, v in q.results:
        a = q.post(s, 's')
        n = len([e for e in s.trace if e.name == 'forces'])
        c.ob('%s %s: %d rounds' % (q.fname, conv, want), q.hyps, n == 1 + 7 * want, info={'path': 'rounds', 'got': (n - 1) / 7, 'want': want}, run=q)
        q._leaf(s, 's.integrator_iterations_max_exceeded', a.integrator_iterations_max_exceeded, 5 + (1 if conv == 'converges never' else 0))
        # the force of the last round, interpolated
        D = F.dt; el = var('e%d' % want)
        poly = [Fraction(1)]
        for x in c.h[:7]:
            np_ = [Fraction(0)] * (len(poly) + 1)
            for i, y in enumerate(poly): np_[i + 1] += y; np_[i] -= x * y
            poly = np_
        Nh = Fraction(1)
        for x in c.h[:7]: Nh *= c.h[7] - x
        iv = sum(y / (j + 1) for j, y in enumerate(poly)) / Nh; ix = sum(y / (j + 1) / (j + 2) for j, y in enumerate(poly)) / Nh
        xs, vs, ls = trajectory(R, 0, D)
        p = a.universe.particles[0]
        q._leaf(s, 's.universe.particles[0].inertial_velocity.x', p.inertial_velocity.x - a.csv[0], vs[0] + el * const(iv) * D)
        q._leaf(s, 's.universe.particles[0].inertial_position.x', p.inertial_position.x - a.csx[0], xs[0] + el * const(ix) * D * D)
    c.ob('%s %s: the step is taken' % (q.fname, q.label), q.hyps, bool(q.results), run=q)

def order(c):
    """forces which are polynomials of degree up to 14: the velocity is exact (13 for the position), up to the tolerance of the literals"""
    import mpmath
    co = (0, 'x')
    with mpmath.workdps(60):
        R = setup(c, 'order', 2, 0, (co,), (co,), 'wind', 14)
        F = R.F; env = F.env
        pick(c, F, 'a', co, [mpf(1) / 2])
        for j in range(8, 15): env['a0x_%d' % j] = mpf(0)
        for j in range(15): env['l0x_%d' % j] = env['a0x_%d' % j] / 3
        R.r.ex.guide = PR.Num(env, 'mp', 1e-40)
        R.go()
        q = R.r
        for s, v in q.results:
            a = q.post(s, 's'); p = a.universe.particles[0]
            out = {'velocity': (p.inertial_velocity.x - a.csv[0], 'a', 14), 'position': (p.inertial_position.x - a.csx[0], 'a', 13), 'angular momentum': (p.angular_momentum.x - a.css[0], 'l', 14)}
            for nm, (t, kind, top) in out.items():
                def at(j):
                    e = Env(); e.update({k: x for k, x in env.items() if k not in ('s.time_step', 's.current_time')}); e['s.time_step'] = mpf(1); e['s.current_time'] = mpf(0)
                    for i in range(15): e['a0x_%d' % i] = e['l0x_%d' % i] = mpf(0)
                    if j is not None: e['%s0x_%d' % (kind, j)] = mpf(1)
                    return PR.Num(e, 'mp', 1e-40)(t)
                base = at(None)
                for j in range(top + 1):
                    want = mpf(1) / (j + 1) if nm != 'position' else mpf(1) / ((j + 1) * (j + 2))
                    got = at(j) - base
                    c.ob('order: %s, force of degree %d' % (nm, j), [], bool(abs(got - want) < 1e-12), info={'path': 'order', 'got': float(got), 'want': float(want)}, run=q)
        c.ob('order: the step is taken', q.hyps, bool(q.results), run=q)

def reexp(x, q, j):
    """coefficient j of the polynomial continued into the next step, q times as long"""
    r = const(0)
    for i in range(j, 7): r = r + const(math.comb(i + 1, j + 1)) * x[i]
    return r * pow_(q, j + 1)

def predict(c, spin, big):
    R = IntRun(c, 'Ias15', 'predict_next_step', 'spin %s large %s' % (spin, big), 2, 0, (), ov={'s.n_particles': 2, 's.universe.consider_effects.wind': spin}, args=lambda r, s: [s, var('dt_ratio')])
    r = R.r
    r.assume(lt(const(20), var('dt_ratio')) if big else not_(lt(const(20), var('dt_ratio'))))
    R.go()
    exp = {}
    for p in ('', 's') if spin else ('',):
        for k in range(6):
            br = [var('s.%sbr_%d[%d]' % (p, j, k)) for j in range(7)]; er = [var('s.%ser_%d[%d]' % (p, j, k)) for j in range(7)]
            for j in range(7):
                e = const(0) if big else reexp(br, var('dt_ratio'), j)
                exp['s.%se_%d[%d]' % (p, j, k)] = e
                exp['s.%sb_%d[%d]' % (p, j, k)] = const(0) if big else e + br[j] - er[j]
    r.frame(exp); r.returns_iff(True); r.no_panic()

def helper(c, name):
    F = c.mir.fn('posidonius::' + M7 + name) or c.mir.fn(M7 + name)
    if F is None: raise Skip('function %s not found' % name)
    return F

def concrete(c, name, *a):
    """run a helper of the integrator on numbers, in double precision"""
    F = helper(c, name)
    ex = Exec(c.mir, concrete=True); st = St()
    me = ex.new_cell(st, Lazy_none())
    rs = ex.call_fn(st, F, [Ptr(me)] + [float(x) for x in a])
    c.functions.add(F.name)
    return rs[0][1]
class Lazy_none: pass

def root(c):
    """bounded: on a grid of arguments"""
    c.bounded.append('seventh root: 441 arguments from 1e-14 to 1e8, in double precision')
    for k in range(441):
        a = 10 ** (-14 + k / 20)
        x = concrete(c, 'sqrt7', a); w = a ** (1 / 7)
        c.ob('seventh root of %.6g' % a, [], abs(x - w) <= 1e-12 * w, info={'path': 'sqrt7', 'got': x, 'want': w})

def add(c):
    """exact arithmetic: nothing is lost; double precision (bounded): the error of a long sum stays of the order of one rounding"""
    r = Run(c, 'posidonius::' + M7 + 'add_cs', 'exact') if c.mir.fn('posidonius::' + M7 + 'add_cs') else Run(c, M7 + 'add_cs', 'exact')
    r.args = [Opq('integrator'), var('p'), var('cs'), var('inp')]
    r.go()
    for s, v in r.results: r._leaf(s, 'the sum less its correction', vget(v, (0,)) - vget(v, (1,)), var('p') - var('cs') + var('inp'))
    r.returns_iff(True)
    c.bounded.append('compensated addition: sums of 2000 terms, in double precision')
    for seed, p0, f in ((1, 1.0, lambda i: 1e-3 / (1 + i)), (2, 12.5, lambda i: 0.1 * math.sin(i)), (3, -3e7, lambda i: 0.1)):
        p, cs, ex = p0, 0.0, Fraction(p0)
        for i in range(2000):
            v = concrete(c, 'add_cs', p, cs, f(i)); p, cs = v.f[0], v.f[1]; ex += Fraction(f(i))
        err = abs(Fraction(p) - ex)
        c.ob('compensated sum %d: error of at most two roundings' % seed, [], err <= 2 * Fraction(math.ulp(p)), info={'path': 'add_cs', 'got': float(err), 'want': 2 * math.ulp(p)})
