"""P18: the Keplerian advance of WHFast is the exact two-body motion (universal variables; Rein & Tamayo 2015, Mikkola & Innanen 1999)."""
from engine.spec import *
from engine import prover as PR
from engine.prover import Result
from engine.terms import reach, kids
from props.lib import *
from props.intg import MOD, isigns
from mpmath import mpf
import mpmath

WH = 'posidonius::integrator::whfast::WHFast::'

def signs(n): return POS if n in ('mu', 'dt') else ANY

def check(c):
    std_assumptions(c)
    c.assume('the reciprocals of factorials written as floating-point quotients stand for the exact numbers',
             'which iterations the root finder goes through is fixed per case by a sample input (each case is proved for every input that goes through the same ones)')
    c.set_signs(signs)
    c.group('two-body motion', lemma, c)
    c.group('compiled code', compiled, c)
    c.group('Stumpff functions of 4 z', doubling, c)
    c.group('truncation', truncation, c)
    for n in range(0, 6 if c.tier == 'quick' else 12):
        for s in (1, -1): c.group('Stumpff functions, %d halvings, %s' % (n, 'elliptic' if s > 0 else 'hyperbolic'), stumpff, c, n, s)
    c.group('Stumpff functions at 0', stumpff, c, None, 1)
    c.group('Stiefel functions', stiefel, c)
    for nm, kw in CASES.items(): c.group(nm, advance, c, nm, **kw)

CASES = {
 'near circle, short step': dict(ecc=0.01, phase=0.0, step=0.01),
 'near circle, short step, third body': dict(ecc=0.01, phase=0.0, step=0.01, i=2),
 'ellipse, outbound': dict(ecc=0.3, phase=1.0, step=0.05),
 'ellipse, inbound': dict(ecc=0.6, phase=-1.0, step=0.02),
 'long step': dict(ecc=0.5, phase=-0.3, step=0.45),
 'very long step': dict(ecc=0.7, phase=-2.0, step=0.8, i=3),
 'more than one period': dict(ecc=0.1, phase=0.5, step=1.3),
 'more than one period, warned before': dict(ecc=0.1, phase=0.5, step=1.3, warned=1),
 'hyperbola, inbound': dict(ecc=1.5, phase=-0.7, step=0.3),
 'hyperbola, outbound': dict(ecc=3.0, phase=0.7, step=0.1),
 'ellipse, the last two values alternate': dict(ecc=0.3, phase=1.0, step=0.05, force='cycle'),
 'hyperbola, the last two values alternate': dict(ecc=1.5, phase=-0.7, step=0.3, force='cycle'),
 'ellipse, no convergence': dict(ecc=0.3, phase=1.0, step=0.05, force='never'),
 'long step, no convergence': dict(ecc=0.5, phase=-0.3, step=0.45, force='never'),
 'more than one period, no convergence': dict(ecc=0.1, phase=0.5, step=1.3, force='never'),
 'hyperbola, no convergence': dict(ecc=1.5, phase=-0.7, step=0.3, force='never'),
}

# ---------------------------------------------------------------- specification
class Endless(Exception): pass
class Kepler:
    """the two-body quantities of the start of the step"""
    def __init__(self, mu, dt, x, v):
        self.mu, self.dt, self.x, self.v = mu, dt, x, v
        self.r0 = norm(x); self.v2 = dot(v, v); self.eta = dot(x, v)
        self.beta = const(2) * mu / self.r0 - self.v2
        self.zeta = mu - self.beta * self.r0
    def residual(self, X, g): return self.r0 * X + self.eta * g[2] + self.zeta * g[3] - self.dt
    def r(self, g): return self.r0 + self.eta * g[1] + self.zeta * g[2]
    def at(self, g):
        r = self.r(g)
        f, gg = -self.mu * g[2] / self.r0, self.dt - self.mu * g[3]
        fd, gd = -self.mu * g[1] / (self.r0 * r), -self.mu * g[2] / r
        return tuple(a + f * a + gg * b for a, b in zip(self.x, self.v)), tuple(b + fd * a + gd * b for a, b in zip(self.x, self.v))
    def root(self, X, g):
        """third Stiefel function for which X solves Kepler's equation"""
        return (self.dt - self.r0 * X - self.eta * g[2]) / self.zeta

def lemma(c):
    """with G_k the Stiefel functions of X and dt = r0 X + eta G2 + zeta G3 the map is the motion on the orbit, X its regularised time"""
    x = tuple(var('x' + k) for k in 'xyz'); v = tuple(var('v' + k) for k in 'xyz'); mu, X = var('mu'), var('X')
    for kind in ('elliptic', 'hyperbolic'):
        K = Kepler(mu, None, x, v)
        b = fn('sqrt', K.beta if kind == 'elliptic' else -K.beta); ph = b * X
        h = [lt(const(0), K.beta) if kind == 'elliptic' else lt(K.beta, const(0))]
        C, S = (fn('cos', ph), fn('sin', ph)) if kind == 'elliptic' else (fn('cosh', ph), fn('sinh', ph))
        g = [C, S / b, (const(1) - C) / K.beta, (X - S / b) / K.beta]
        K.dt = K.r0 * X + K.eta * g[2] + K.zeta * g[3]
        y, w = K.at(g); r = K.r(g)
        def ob(n, a, e): c.ob('two-body motion, %s: %s' % (kind, n), h, same(a, e))
        ob('the distance is that of the position', dot(y, y), r * r)
        for k, a, e in zip('xyz', cross(y, w), cross(x, v)): ob('angular momentum %s' % k, a, e)
        ob('energy', dot(w, w) / const(2) - mu / r, K.v2 / const(2) - mu / K.r0)
        for i, k in enumerate('xyz'):
            lrl = lambda p, q, r: cross(q, cross(p, q))[i] - mu * p[i] / r
            ob('eccentricity vector %s' % k, lrl(y, w, r), lrl(x, v, K.r0))
        # G0' = -beta G1, G1' = G0, G2' = G1, G3' = G2 with respect to X
        dg = [-K.beta * g[1], g[0], g[1], g[2]]
        ob('time runs as r dX', K.r0 + K.eta * dg[2] + K.zeta * dg[3], r)
        for i, k in enumerate('xyz'):
            dy = -mu * dg[2] / K.r0 * x[i] + (r - mu * dg[3]) * v[i]
            ob('the velocity is the derivative of the position %s' % k, dy, r * w[i])
            dr = K.eta * dg[1] + K.zeta * dg[2]
            dfd = -mu / K.r0 * (dg[1] * r - g[1] * dr) / (r * r); dgd = -mu * (dg[2] * r - g[2] * dr) / (r * r)
            ob('the acceleration is that of the central mass %s' % k, dfd * x[i] + dgd * v[i], r * (-mu * y[i] / (r * r * r)))

def series(z):
    """c_k(z) = sum_j (-z)^j / (2j+k)!, to the order the code keeps"""
    import math
    out = []
    for k, top in ((0, 6), (1, 6), (2, 5), (3, 5)):
        p = const(1); s = const(0)
        for j in range(top + 1):
            s = s + p * const(Fraction(1, math.factorial(2 * j + k))); p = p * -z
        out.append(s)
    return out
def quadruple(c):
    return [const(2) * c[0] * c[0] - const(1), c[0] * c[1], c[1] * c[1] / const(2), (c[2] + c[0] * c[3]) / const(4)]
def doubling(c):
    y = var('y'); s = fn('sqrt', y)
    for kind in ('elliptic', 'hyperbolic'):
        a, b = (fn('cos', s), fn('sin', s)) if kind == 'elliptic' else (fn('cosh', s), fn('sinh', s))
        z = y if kind == 'elliptic' else -y
        sg = const(1 if kind == 'elliptic' else -1)
        C = [a, b / s, (const(1) - a) / z, (s - b) / (s * z)]
        a2, b2 = a * a - sg * b * b, const(2) * a * b; s2 = const(2) * s; z2 = const(4) * z
        want = [a2, b2 / s2, (const(1) - a2) / z2, (s2 - b2) / (s2 * z2)]
        for k, (p, q) in enumerate(zip(quadruple(C), want)): c.ob('Stumpff functions of 4 z, %s: c%d' % (kind, k), [lt(const(0), y)], same(p, q))
def truncation(c):
    """the first omitted term, relative to the function, with the geometric bound of the rest, at |z| = 0.1"""
    import math
    for k, top in ((0, 6), (1, 6), (2, 5), (3, 5)):
        e = Fraction(1, 10) ** (top + 1) / math.factorial(2 * (top + 1) + k) * Fraction(10, 9)
        c.ob('truncation: c%d is complete to the last digit' % k, [], e < Fraction(1, 10 ** 16) * Fraction(9, 10) / math.factorial(k) / 2)

def fact_ideal(x):
    import math
    if x == x and 0 < abs(x) <= 1 and abs(x) != float('inf'):
        d = round(1 / abs(x)) if abs(x) > 1e-300 else 0
        for k in range(2, 35):
            if abs(abs(x) * math.factorial(k) - 1) < 1e-15: return const(Fraction(1, math.factorial(k)) * (1 if x > 0 else -1))
    return const(x) if x == x and abs(x) != float('inf') else x

def stumpff(c, n, s):
    r = Run(c, WH + 'stumpff_cs3', '%s %s' % (n, 'elliptic' if s > 0 else 'hyperbolic'))
    r.ex.ideal = fact_ideal
    r.auto_args(['z'])
    env = {'z': mpf(0) if n is None else s * mpf('0.06') * 4 ** n}
    r.ex.guide = PR.Num(env, 'mp', 1e-40)
    with mpmath.workdps(60): r.go()
    r.no_panic()
    z = var('z') / const(4 ** (n or 0)); w = series(z)
    for _ in range(n or 0): w = quadruple(w)
    if len(r.results) != 1: raise Skip('the guided execution returns %d states' % len(r.results))
    for st, v in r.states():
        c.ob('%s %s: the series is used where it is accurate' % (r.fname, r.label), list(st.pc), and_(le(z, const(Fraction(1, 10) + Fraction(1, 10**9))), le(const(Fraction(-1, 10) - Fraction(1, 10**9)), z)), run=r)
        for k in range(4): r._leaf(st, 'c%d' % k, vget(v, (k,)), w[k])

def c_uninterpreted(name, log=None):
    def h(ex, st, a, f, w):
        xs = [lift(x) for x in a]
        return [(st, Agg(tuple(fn('%s%d' % (name, k), *xs) for k in range(4)) + (const(0), const(0))))]
    return h

def stiefel(c):
    r = Run(c, WH + 'stiefel_gs3', '', contracts={WH + 'stumpff_cs3': c_uninterpreted('stumpff')})
    r.auto_args(['beta', 'x']); r.go(); r.no_panic()
    b, x = var('beta'), var('x'); p = const(1)
    for st, v in r.states():
        p = const(1)
        for k in range(4):
            r._leaf(st, 'G%d' % k, vget(v, (k,)), fn('stumpff%d' % k, b * x * x) * p); p = p * x

def cs_num(z):
    m = mpmath
    if not abs(z) < mpf(10) ** 6: raise Endless()
    if abs(z) < mpf(10) ** -8: return [1 - z / 2 + z * z / 24, 1 - z / 6 + z * z / 120, mpf(1) / 2 - z / 24 + z * z / 720, mpf(1) / 6 - z / 120 + z * z / 5040]
    if z > 0:
        s = m.sqrt(z); return [m.cos(s), m.sin(s) / s, (1 - m.cos(s)) / z, (s - m.sin(s)) / (s * z)]
    s = m.sqrt(-z); return [m.cosh(s), m.sinh(s) / s, (m.cosh(s) - 1) / -z, (m.sinh(s) - s) / (s * -z)]

def advance(c, nm, ecc, phase, step, i=1, warned=0, force=None):
    with mpmath.workdps(60):
        env = {}
        mu, period, pos, vel = orbit(ecc, phase)
        P = 's.particles_alternative_coordinates[%d].' % i
        for j, d in enumerate('xyz'): env[P + 'position.' + d] = pos[j]; env[P + 'velocity.' + d] = vel[j]
        env['mu'] = mu; env['dt'] = period * mpf(str(step)); env['s.timestep_warning'] = warned
        K = Kepler(var('mu'), var('dt'), tuple(var(P + 'position.' + d) for d in 'xyz'), tuple(var(P + 'velocity.' + d) for d in 'xyz'))
        K.kind = 'elliptic' if ecc < 1 else 'hyperbolic'
        guide = PR.Num(env, 'mp', 1e-40)
        calls = []      # (beta, X, G)
        forced = {'on': force is not None, 'next': None}
        def h(ex, st, a, fcallee, w):
            b, X = lift(a[0]), lift(a[1]); n = len(calls)
            if n > 400: raise Endless()
            g = [var('G%d_%d' % (n, j)) for j in range(4)]
            bn, Xn = guide(b), guide(X)
            val = [t * Xn ** j for j, t in enumerate(cs_num(bn * Xn * Xn))]
            if Xn == 0: val[1] = val[2] = val[3] = mpf(0)
            r0, eta, zeta, dt = (guide(t) for t in (K.r0, K.eta, K.zeta, K.dt))
            if forced['on']:
                if force == 'cycle':
                    # the second Newton step goes back to where the first one started
                    if n == 1:
                        et = eta * val[1] + zeta * val[2]; back = guide(calls[0][1])
                        val[3] = (Xn * et - eta * val[2] + dt - back * (r0 + et)) / zeta
                else:
                    lo = 0; per = 2 * mpmath.pi / mpmath.sqrt(bn) if bn > 0 else None
                    if per is not None: mid = per * (mpmath.floor(dt / period) + mpf(1) / 2)
                    else:
                        h2 = r0 * r0 * guide(K.v2) - eta * eta; qq = h2 / mu / (1 + mpmath.sqrt(1 - h2 * bn / (mu * mu)))
                        mid = (1 / (mpmath.sqrt(h2) / qq + r0 / dt) + dt / qq) / 2
                    if n > 20 and abs(Xn / mid - 1) < mpf(10) ** -30: forced['on'] = False
                    else: val[3] = val[3] * (1 + mpf(n + 1) / 1000) if n else val[3]
            for j in range(4): env['G%d_%d' % (n, j)] = val[j]
            calls.append((b, X, g))
            return [(st, Agg(tuple(g) + (const(0), const(0))))]
        r_ = Run(c, WH + 'kepler_individual_step', nm, ov={'s.timestep_warning': warned}, contracts={WH + 'stiefel_gs3': h})
        r_.auto_args(['s', i, 'mu', 'dt'])
        r_.ex.guide = guide
        r_.no_replay = force is not None      # the forced values are not those of the real callee
        try: r_.go()
        except Endless:
            c.ob('%s %s: the root finder ends (stopped after 400 values, or far off the orbit)' % (r_.fname, nm), [], False, run=None); return
    q = r_
    if len(q.results) != 1 or not calls: raise Skip('the guided execution returns %d states' % len(q.results))
    q.no_panic()
    s, _ = q.results[0]; pc = list(s.pc)
    def ob(what, goal, hyps=pc, got=None, want=None): return c.ob('%s %s: %s' % (q.fname, nm, what), hyps, goal, info={'path': what, 'got': got, 'want': want}, run=q)
    n = len(calls)
    for k, (b, X, g) in enumerate(calls): ob('the energy of the orbit is the argument of the Stiefel functions', same(b, K.beta), got=b, want=K.beta)
    b, X, g = calls[-1]
    y, w = K.at(g)
    exp = {}
    for t, d in enumerate('xyz'): exp['%sposition.%s' % (P, d)] = y[t]; exp['%svelocity.%s' % (P, d)] = w[t]
    if step > 1 and not warned: exp['s.timestep_warning'] = 1
    q.frame(exp)
    # where did the root finder stop?
    def rooted(k): return {calls[k][2][3]: K.root(calls[k][1], calls[k][2])}
    if force == 'never':
        # the first value that is the centre of the bracket starts the bisection
        start = next((k for k in range(n) if k > 20 and same_num(guide, calls[k][1], bracket_mid(K))), None)
        ob('a root finder that does not settle is followed by a bisection of the bracket', start is not None, [])
        if start is None: return
        lo, hi = bracket(K)
        for k in range(start, n):
            Xk, gk = calls[k][1], calls[k][2]
            if k in (start, start + 1, start + 2, start + 10, n - 2, n - 1): ob('bisection: point %d is the centre of the bracket' % (k - start), same(Xk, (lo + hi) / const(2)), got=Xk, want=(lo + hi) / const(2))
            res = K.residual(Xk, gk); up = guide(res) >= 0
            ob('bisection: the half is chosen by the sign of Kepler\'s equation', le(const(0), res) if up else lt(res, const(0)), about(pc, k))
            lo, hi = (lo, Xk) if up else (Xk, hi)
        wd = fabs(hi - lo) / hi; small = const(Fraction(1, 10 ** 15) * (1 + Fraction(1, 10 ** 9)))
        lits = [t for t in pc if isinstance(t, T)]
        for t in list(lits):
            if t.op == 'and': lits += [a for a in t.a if isinstance(a, T)]
        inpc = set(lits)
        cand = [t for l in lits for t in [l.a[0] if l.op == 'not' else l] if t.op == 'lt' and t.a[0].op == 'c' and 0 < t.a[0].a[0] < Fraction(1, 10 ** 14) and same_num(guide, t.a[1], wd)]
        if cand:        # the exit condition is about exactly this width: what remains is a comparison of numbers
            t = cand[0]
            ob('bisection: the width of the bracket ends it', same(t.a[1], wd), [], got=t.a[1], want=wd)
            ob('bisection: ends when the bracket is small', bool(t.a[0].a[0] <= small.a[0] and not_(t) in inpc), [])
        else: ob('bisection: ends when the bracket is small', le(wd, small))
    else:
        starts = 1 if n > 1 else 0
        for k in range(starts, n - 1):
            if force == 'cycle' and k == n - 1: continue
            nx = subst(calls[k + 1][1], rooted(k))
            ob('a solution of Kepler\'s equation is a fixed point of step %d of the root finder' % (k - starts), same(nx, calls[k][1]), [], got=nx, want=calls[k][1])
        # the exit: the new value repeats the last one, or an earlier one
        pv = c.get_prover(); found = False
        atoms = [t for t in pc if isinstance(t, T)]
        def eqs(t):
            if t.op == 'and': return [x for a in t.a for x in eqs(a)]
            return [t] if t.op == 'eq' else []
        for t in [x for a in atoms for x in eqs(a)][::-1]:
            for k in range(n - 1, -1, -1):
                if found: break
                d = subst(t.a[0] - t.a[1], rooted(n - 1)); e = X - calls[k][1]
                if pv.prove([], same(d, e)).status == 'proved' or pv.prove([], same(-d, e)).status == 'proved': found = True
        ob('the root finder stops where its value repeats', found, [])

def about(pc, k):
    """the facts of the path about the Stiefel functions of call k and no later one"""
    lit = [t for t in pc if isinstance(t, T)]
    if any(t.id not in _last for t in lit):
        for n in reach(*lit):
            if n.id in _last: continue
            nm = str(n.a[0]) if n.op == 'v' else ''
            _last[n.id] = int(nm[1:nm.index('_')]) if nm[:1] == 'G' and '_' in nm else max([_last[x.id] for x in kids(n)] or [-1])
    return [t for t in lit if _last.get(t.id) == k]
_last = {}
PI_ = const(__import__('math').pi)
def bracket(K):
    if K.kind == 'elliptic':
        sb = fn('sqrt', K.beta); per = const(2) * PI_ / sb; ip = sb * K.beta / (const(2) * PI_ * K.mu)
        lo = per * fn('floor', K.dt * ip)
        return lo, lo + per
    h2 = K.r0 * K.r0 * K.v2 - K.eta * K.eta
    q = h2 / K.mu / (const(1) + fn('sqrt', const(1) - h2 * K.beta / (K.mu * K.mu)))
    return const(1) / (fn('sqrt', h2) / q + K.r0 / K.dt), K.dt / q
def bracket_mid(K):
    lo, hi = bracket(K); return (lo + hi) / const(2)
def same_num(guide, a, b):
    with mpmath.workdps(60):
        x, y = guide(a), guide(b); return abs(x - y) <= abs(y) * mpf(10) ** -30

def orbit(ecc, phase):
    """a sample orbit: pericentre distance 0.7, any orientation"""
    mu = mpf('2.9e-4'); q = mpf('0.7'); e = mpf(str(ecc)); f = mpf(str(phase)); p = q * (1 + e); r = p / (1 + e * mpmath.cos(f))
    X2 = [r * mpmath.cos(f), r * mpmath.sin(f)]; k = mpmath.sqrt(mu / p); V2 = [-k * mpmath.sin(f), k * (e + mpmath.cos(f))]
    A, B = [mpf(36) / 65, mpf(48) / 65, mpf(-25) / 65], [mpf(-4) / 5, mpf(3) / 5, mpf(0)]
    period = 2 * mpmath.pi * mpmath.sqrt((q / abs(1 - e)) ** 3 / mu)
    return mu, period, [X2[0] * A[j] + X2[1] * B[j] for j in range(3)], [V2[0] * A[j] + V2[1] * B[j] for j in range(3)]

def exact(mu, dt, x, v):
    """the two-body motion, by bisection and Newton on Kepler's equation in multiprecision"""
    m = mpmath; d = lambda a, b: sum(p * q for p, q in zip(a, b))
    r0 = m.sqrt(d(x, x)); eta = d(x, v); beta = 2 * mu / r0 - d(v, v); zeta = mu - beta * r0
    G = lambda X: [t * X ** j for j, t in enumerate(cs_num(beta * X * X))]
    F = lambda X: (lambda g: r0 * X + eta * g[2] + zeta * g[3] - dt)(G(X))
    lo, hi = mpf(0), dt / r0
    while F(hi) < 0: hi = hi * 2
    for _ in range(150):
        mid = (lo + hi) / 2
        if F(mid) >= 0: hi = mid
        else: lo = mid
    g = G((lo + hi) / 2); r = r0 + eta * g[1] + zeta * g[2]
    f, gg, fd, gd = 1 - mu * g[2] / r0, dt - mu * g[3], -mu * g[1] / (r0 * r), 1 - mu * g[2] / r
    return [f * a + gg * b for a, b in zip(x, v)], [fd * a + gd * b for a, b in zip(x, v)]

GRID = [(e, f, s) for e in (0.0, 0.05, 0.3, 0.7, 0.9, 1.2, 2.0, 5.0) for f in (-2.0, -1.0, -0.2, 0.0, 0.4, 1.5) for s in (1e-4, 0.01, 0.05, 0.2, 0.6) if e < 1 or abs(f) < 1.6]

def compiled(c):
    """bounded: the compiled step against the two-body motion, in machine arithmetic, on a fixed set of orbits and step lengths"""
    from engine import replay as RP
    r = Run(c, WH + 'kepler_individual_step', 'compiled'); r.auto_args(['s', 1, 'mu', 'dt'])
    try: dr = RP.Driver(c.mir, r.F, RP.argspec(r))
    except RP.NoReplay as e: raise Skip('the driver does not build: %s' % str(e)[-200:])
    try:
        many, want = [], []
        with mpmath.workdps(40):
            for e, f, s in GRID:
                mu, T0, x, v = orbit(e, f); dt = T0 * mpf(str(s))
                env = RP.EnvDict({'mu': float(mu), 'dt': float(dt), 's.timestep_warning': 1})
                P = 's.particles_alternative_coordinates[1].'
                for j, d in enumerate('xyz'): env[P + 'position.' + d] = float(x[j]); env[P + 'velocity.' + d] = float(v[j])
                a, pos = RP.jargs(r, PR.Num(env, 'float')); many.append(a)
                want.append(exact(mpf(env['mu']), mpf(env['dt']), [mpf(env[P + 'position.' + d]) for d in 'xyz'], [mpf(env[P + 'velocity.' + d]) for d in 'xyz']))
            try: out = dr.batch(many)
            except Exception as e: out = []
            if len(out) < len(many):
                bad = [(0, 'no result: the step does not return')] if not out else [(len(out), 'no result for this input')]
            else:
                bad = []
                for k, (o, (y, w)) in enumerate(zip(out, want)):
                    if 'panic' in o or 'harness_error' in o: bad.append((k, 'panics')); continue
                    p = o['args'][pos['s']]['particles_alternative_coordinates'][1]
                    for nm, t in (('position', y), ('velocity', w)):
                        n = mpmath.sqrt(sum(z * z for z in t)); got = [p[nm][d] for d in 'xyz']
                        if any(z is None for z in got) or max(abs(mpf(z) - q) for z, q in zip(got, t)) > n * mpf(10) ** -10: bad.append((k, '%s %s instead of %s' % (nm, got, [float(q) for q in t])))
    finally: dr.close()
    c.bounded.append('machine arithmetic: the compiled step agrees with the two-body motion to 1e-10 on %d orbits and step lengths (eccentricities 0 to 5, steps of 0.0001 to 0.6 periods)' % len(GRID))
    c.witnesses = [{'obligation': 'compiled Kepler step, eccentricity %g, phase %g, step %g periods' % GRID[k], 'code_gives': t} for k, t in bad]
    c.ob('the compiled Kepler step follows the two-body motion on the sample orbits (%s)' % ('%d of %d differ' % (len(bad), len(GRID)) if bad else 'all'), [], not bad)
