"""P11: post-Newtonian accelerations and spin-orbit torques (Kidder 1995; Anderson 1975; Newhall 1983)."""
from engine.spec import *
from props.lib import *

GR = 'general_relativity'

def check(c):
    std_assumptions(c)
    c.assume('heliocentric coordinates are those of the current inertial state (property P05)', 'the gravitational parameter of every body is G times its mass (property P03)')
    c.set_signs(esigns)
    c.G = const(c.mir.const_f64('constants::G')); c.c2 = const(c.mir.const_f64('constants::SPEED_OF_LIGHT_2'))
    for n in (2, 3, 4):
        for h, mm in placements(n): c.group('Kidder n=%d host=%d most massive=%d' % (n, h, mm), kidder, c, n, h, mm, ())
    c.group('Kidder with a body without relativity', kidder, c, 3, 0, 0, (2,))
    c.group('Kidder with bodies without relativity', kidder, c, 4, 1, 0, (0, 3))
    for n in (5, 8, 10): c.group('Kidder n=%d' % n, kidder, c, n, 0, 0, ())
    for dl, acc in ((True, False), (False, True)): c.group('Kidder only %s' % ('torques' if dl else 'accelerations'), kidder, c, 3, 0, 0, (), dl=dl, acc=acc)
    # strong fields first: there the iterations run to their limit, and a wrong formula has plain counterexamples
    c.samplers.append(strong)
    T = range(1, MAXIT + 1); IGN = ('None', 'WHFastOne', 'WHFastTwo')
    for q in (10, 2):
        for f, nm, w in ((anderson, 'Anderson', lambda k: (q,) * k), (newhall, 'Newhall', lambda k: q)):
            for ign in IGN:
                for h in (0, 1): c.group('%s n=2 host=%d %s %d' % (nm, h, ign, q), f, c, 2, h, (), ign, w(1))
                for h in (0, 1, 2):
                    if q == 2 or h < 2 and nm == 'Anderson' or h == 0: c.group('%s n=3 host=%d %s %d' % (nm, h, ign, q), f, c, 3, h, (), ign, w(2))
            c.group('%s with a body without relativity %d' % (nm, q), f, c, 3, 0, (2,), 'None', w(1))
            if q == 2 or nm == 'Anderson': c.group('%s with bodies without relativity %d' % (nm, q), f, c, 4, 1, (0, 3), 'WHFastTwo', w(1))
            for n in (4, 6, 10) if nm == 'Anderson' else (4,):
                if q == 2 or n == 4 and nm == 'Anderson': c.group('%s n=%d %d' % (nm, n, q), f, c, n, 0, (), 'None', w(n - 1))
    for q in T:
        for h in (0, 1):
            for ign in IGN: c.group('Anderson n=2 host=%d %s %d' % (h, ign, q), anderson, c, 2, h, (), ign, (q,))
            c.group('Newhall n=2 host=%d %d' % (h, q), newhall, c, 2, h, (), 'None', q)
    for q in ((1, 1), (1, 2), (2, 1), (10, 3), (4, 10)) if c.tier == 'quick' else [(x, y) for x in T for y in T]: c.group('Anderson n=3 %s' % (q,), anderson, c, 3, 0, (), 'None', q)
    if c.tier != 'quick':
        for h in (0, 1): c.group('Newhall n=2, any convergence', newhall, c, 2, h, (), 'None'); c.group('Anderson n=2, any convergence', anderson, c, 2, h, (), 'None')

def strong(name, rng):
    if name.endswith('.mass'): return rng.uniform(1e6, 5e6)
    if 'inertial_velocity' in name: return rng.uniform(20, 60) * rng.choice((-1, 1))
    if 'inertial_position' in name: return rng.uniform(0.5, 3) * rng.choice((-1, 1))
    return None

def masses(c, n):
    return {'u.particles[%d].mass_g' % i: c.G * var('u.particles[%d].mass' % i) for i in range(n)}

def kidder_pair(c, E, h, i):
    """relative acceleration of the pair and the two torques: Kidder (1995), equations 2.2b-d and 2.4"""
    m1, m2 = E.p(i).mass, E.p(h).mass; m = m1 + m2; eta = m1 * m2 / m ** 2
    S1, S2 = E.p(i).angular_momentum.xyz, E.p(h).angular_momentum.xyz
    x, v = E.pos(GR, i), E.vel(GR, i); r = norm(x); nn = vscale(const(1) / r, x); rd = dot(nn, v); v2 = dot(v, v)
    gm = c.G * m / r; K = lambda a, b=1: const(Fraction(a, b))
    A1 = K(-2) * (K(2) + eta) * gm + (K(1) + K(3) * eta) * v2 - K(3, 2) * eta * rd ** 2
    B1 = K(-2) * (K(2) - eta) * rd
    A2 = K(3, 4) * (K(12) + K(29) * eta) * gm ** 2 + eta * (K(3) - K(4) * eta) * v2 ** 2 + K(15, 8) * eta * (K(1) - K(3) * eta) * rd ** 4 \
        - K(3, 2) * eta * (K(3) - K(4) * eta) * v2 * rd ** 2 - K(1, 2) * eta * (K(13) - K(4) * eta) * gm * v2 - (K(2) + K(25) * eta + K(2) * eta ** 2) * gm * rd ** 2
    B2 = K(-1, 2) * rd * (eta * (K(15) + K(4) * eta) * v2 - (K(4) + K(41) * eta + K(8) * eta ** 2) * gm - K(3) * eta * (K(3) + K(2) * eta) * rd ** 2)
    pre = const(-1) * c.G * m / r ** 2
    a = vadd(vscale(pre * (A1 / c.c2 + A2 / c.c2 ** 2), nn), vscale(pre * (B1 / c.c2 + B2 / c.c2 ** 2), v))
    S = vadd(S1, S2); D = vscale(m, vsub(vscale(const(1) / m2, S2), vscale(const(1) / m1, S1))); dD = vscale((m1 - m2) / m, D)
    so = vscale(K(6) * dot(cross(nn, v), vadd(vscale(K(2), S), dD)), nn)
    so = vsub(so, cross(v, vadd(vscale(K(7), S), vscale(K(3), dD))))
    so = vadd(so, vscale(K(3) * rd, cross(nn, vadd(vscale(K(3), S), dD))))
    f = c.G / (c.c2 * r ** 3)
    L = vscale(m1 * m2 / m, cross(x, v))
    def torque(ma, mb, Sa, Sb):
        t = vscale(K(2) + K(3, 2) * mb / ma, cross(L, Sa))
        return vscale(f, vadd(vsub(t, cross(Sb, Sa)), vscale(K(3) * dot(nn, Sb), cross(nn, Sa))))
    return vadd(a, vscale(f, so)), torque(m1, m2, S1, S2), torque(m2, m1, S2, S1)

def kidder(c, n, h, mm, off, dl=True, acc=True):
    E = EffRun(c, 'Kidder n=%d host=%d most massive=%d%s%s' % (n, h, mm, ' off=%s' % (off,) if off else '', '' if dl and acc else ' torques only' if dl else ' accelerations only'),
               n, {GR: orbiting(n, h, off)}, mm, dl=dl, acc=acc, ov=masses(c, n), gr_impl='Kidder1995')
    E.go()
    on = [i for i in range(n) if i != h and i not in off]
    fs = {i: kidder_pair(c, E, h, i) for i in on}
    def post(s, u):
        o = {i: u.particles[i].general_relativity.parameters.output for i in range(n)}
        if acc:
            tot = (const(0),) * 3
            for i in on:
                E.vec(s, 'acceleration of body %d' % i, o[i].acceleration, fs[i][0])
                tot = vadd(tot, vscale(E.p(i).mass / E.p(h).mass, fs[i][0]))
            E.vec(s, 'acceleration of the host', o[h].acceleration, vscale(const(-1), tot))
        if dl:
            tot = (const(0),) * 3
            for i in on:
                E.vec(s, 'torque on body %d' % i, o[i].dangular_momentum_dt, fs[i][1]); tot = vadd(tot, fs[i][2])
            E.vec(s, 'torque on the host', o[h].dangular_momentum_dt, tot)
        for i in off:
            E.vec(s, 'acceleration of unaffected body %d' % i, o[i].acceleration, E.p(i).general_relativity.parameters.output.acceleration.xyz)
            E.vec(s, 'torque on unaffected body %d' % i, o[i].dangular_momentum_dt, E.p(i).general_relativity.parameters.output.dangular_momentum_dt.xyz)
    E.each(post)
    E.r.returns_iff(True)

# ---------------------------------------------------------------- Newtonian accelerations with the terms the integrator left out
def newtonian(c, E, h, ign):
    n = E.n; a = {i: E.p(i).inertial_acceleration.xyz for i in range(n)}
    pairs = [] if ign == 'None' else [i for i in range(n) if i != h][:1 if ign == 'WHFastOne' else n]
    for i in pairs:
        d = vsub(E.p(i).inertial_position.xyz, E.p(h).inertial_position.xyz); r3 = norm(d) ** 3
        a[i] = vadd(a[i], vscale(const(-1) * c.G * E.p(h).mass / r3, d))
        a[h] = vadd(a[h], vscale(c.G * E.p(i).mass / r3, d))
    return a

EPS2 = lambda c: const(c.mir.const_f64('constants::DBL_EPSILON_2'))
MAXIT = 10

def anderson(c, n, h, off, ign, case=None):
    E = EffRun(c, 'Anderson n=%d host=%d%s %s' % (n, h, ' off=%s' % (off,) if off else '', ign + (' stops after %s' % (case,) if case else '')), n, {GR: orbiting(n, h, off)}, h, ov=masses(c, n), gr_impl='Anderson1975', ignored=ign)
    a = newtonian(c, E, h, ign); on = [i for i in range(n) if i != h and i not in off]; mu = c.G * E.p(h).mass; K = const
    def inner(k, f):
        """centre of mass of the host and the first k bodies"""
        b = [h] + on[:k]; M = sum_(E.p(j).mass for j in b); t = (K(0),) * 3
        for j in b: t = vadd(t, vscale(E.p(j).mass, f(j)))
        return vscale(K(1) / M, t), M
    out = {}
    for k, i in enumerate(on):
        x = vsub(E.p(i).inertial_position.xyz, inner(k, lambda j: E.p(j).inertial_position.xyz)[0])
        v = vsub(E.p(i).inertial_velocity.xyz, inner(k, lambda j: E.p(j).inertial_velocity.xyz)[0])
        ac = vsub(a[i], inner(k, lambda j: a[j])[0])
        r = norm(x); A = lambda w: (K(1) / K(2) * dot(w, w) + K(3) * mu / r) / c.c2
        # the canonical velocity: w (1 - A(w)) = v, by iteration
        w = v; done = False
        for q in range(MAXIT if not case else case[k]):
            nw = vscale(K(1) / (K(1) - A(w)), v)
            if case:
                conv = lt(dot(vsub(nw, w), vsub(nw, w)) / dot(nw, nw), EPS2(c))
                if q + 1 < MAXIT: E.r.assume(conv if q + 1 == case[k] else not_(conv))
                w = nw; continue
            w1 = nw if done is False else tuple(ite(done, p, s) for p, s in zip(w, nw))
            conv = lt(dot(vsub(nw, w), vsub(nw, w)) / dot(nw, nw), EPS2(c))
            done = conv if done is False else or_(done, conv)
            w = w1
        B = (mu / r - K(3) / K(2) * dot(w, w)) * mu / r ** 3 / c.c2
        D = (dot(w, vadd(ac, vscale(B, x))) - K(3) * mu / r ** 3 * dot(x, v)) / c.c2
        out[i] = vsub(vsub(vscale(B * (K(1) - A(w)), x), vscale(A(w), ac)), vscale(D, w))
    # back to inertial accelerations; the centre of mass is not accelerated
    com = (K(0),) * 3; res = {}
    for k in reversed(range(len(on))):
        i = on[k]; M = inner(k + 1, lambda j: E.p(j).inertial_position.xyz)[1]
        com = vsub(com, vscale(E.p(i).mass / M, out[i])); res[i] = vadd(out[i], com)
    res[h] = com
    E.go()
    def post(s, u):
        for i in [h] + on: E.vec(s, 'acceleration of body %d' % i, u.particles[i].general_relativity.parameters.output.acceleration, res[i])
        for i in off: E.vec(s, 'acceleration of unaffected body %d' % i, u.particles[i].general_relativity.parameters.output.acceleration, E.p(i).general_relativity.parameters.output.acceleration.xyz)
        for i in range(n): E.vec(s, 'torque on body %d' % i, u.particles[i].general_relativity.parameters.output.dangular_momentum_dt, (K(0),) * 3 if i not in off else E.p(i).general_relativity.parameters.output.dangular_momentum_dt.xyz)
    E.each(post)
    E.r.returns_iff(True)

def newhall(c, n, h, off, ign, case=None):
    E = EffRun(c, 'Newhall n=%d host=%d%s %s' % (n, h, ' off=%s' % (off,) if off else '', ign + (' stops after %s' % (case,) if case else '')), n, {GR: orbiting(n, h, off)}, h, ov=masses(c, n), gr_impl='Newhall1983', ignored=ign)
    aN = newtonian(c, E, h, ign); K = lambda a, b=1: const(Fraction(a, b)); z = (K(0),) * 3; B = range(n)
    X = [E.p(i).inertial_position.xyz for i in B]; V_ = [E.p(i).inertial_velocity.xyz for i in B]; mu = [c.G * E.p(i).mass for i in B]
    R = [[None if i == j else norm(vsub(X[i], X[j])) if i < j else norm(vsub(X[j], X[i])) for j in B] for i in B]
    pair = lambda i, j: i != j and not (i in off and j in off)
    def eih(i, acc):
        """Newhall, Standish and Williams (1983), equation 1 with beta = gamma = 1, without the Newtonian term"""
        t = z
        for j in B:
            if not pair(i, j): continue
            d = vsub(X[j], X[i]); r = R[i][j]; vi, vj = V_[i], V_[j]
            f = K(-4) * sum_(mu[l] / R[i][l] for l in B if l != i) - sum_(mu[l] / R[j][l] for l in B if l != j) + dot(vi, vi) + K(2) * dot(vj, vj) - K(4) * dot(vi, vj) \
                - K(3, 2) * (dot(vsub(X[i], X[j]), vj) / r) ** 2 + K(1, 2) * dot(d, acc[j])
            t = vadd(t, vscale(mu[j] * f / r ** 3, d))
            t = vadd(t, vscale(mu[j] / r ** 3 * dot(vsub(X[i], X[j]), vsub(vscale(K(4), vi), vscale(K(3), vj))), vsub(vi, vj)))
            t = vadd(t, vscale(K(7, 2) * mu[j] / r, acc[j]))
        return vscale(K(1) / c.c2, t)
    g = [z] * n; done = False; lim = const_f(1e-30)
    for q in range(MAXIT if not case else case):
        nw = [eih(i, [vadd(aN[j], g[j]) for j in B]) for i in B]
        conv = and_(*[or_(lt(fabs(nw[i][k]), lim), lt(fabs(nw[i][k] - g[i][k]) / fabs(nw[i][k]), lim)) for i in B if i not in off for k in range(3)])
        if case:
            if q + 1 < MAXIT:
                for i in B:
                    for k in range(3):
                        if i in off: continue
                        d = fabs(nw[i][k] - g[i][k]) / fabs(nw[i][k])
                        E.r.assume(not_(lt(fabs(nw[i][k]), lim)))
                        E.r.assume(lt(d, lim) if q + 1 == case else not_(lt(d, lim)))
                        if q + 1 < case: E.r.assume(lt(const(0), d))
            g = nw; continue
        g1 = nw if done is False else [tuple(ite(done, p, s) for p, s in zip(g[i], nw[i])) for i in B]
        done = conv if done is False else or_(done, conv)
        g = g1
    E.go()
    def post(s, u):
        for i in B:
            o = u.particles[i].general_relativity.parameters.output; p = E.p(i).general_relativity.parameters.output
            E.vec(s, 'acceleration of body %d' % i, o.acceleration, g[i] if i not in off else p.acceleration.xyz)
            E.vec(s, 'torque on body %d' % i, o.dangular_momentum_dt, p.dangular_momentum_dt.xyz)
    E.each(post)
    E.r.returns_iff(True)
