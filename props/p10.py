"""P10: rotational flattening of oblate spheroids (Bolmont et al. 2015, equations 15-19 and 25)."""
from engine.spec import *
from props.lib import *

RF = 'rotational_flattening'

def check(c):
    std_assumptions(c)
    c.assume('heliocentric coordinates are those of the current inertial state (property P05)',
             'a body whose flattening is disabled still has the zero internal force factors it was built with (no function writes them)')
    c.set_signs(esigns)
    for n in (2, 3, 4):
        for h, mm in placements(n):
            c.group('oblate n=%d host=%d most massive=%d' % (n, h, mm), oblate, c, n, h, mm, ())
    c.group('oblate with a body without flattening', oblate, c, 3, 0, 0, (2,))
    c.group('oblate with bodies without flattening', oblate, c, 4, 1, 0, (0, 3))
    for n in (5, 8, 10): c.group('oblate n=%d' % n, oblate, c, n, 0, 0, ())
    for dl, acc in ((True, False), (False, True)):
        c.group('only %s' % ('torques' if dl else 'accelerations'), oblate, c, 3, 0, 0, (), dl=dl, acc=acc)
    for z in ((0,), (1,), (0, 1, 2)):
        c.group('bodies %s do not rotate' % (z,), oblate, c, 3, 0, 0, (), still=z)

def force(c, E, i, still):
    h = E.hosts[RF]; H, P = E.p(h), E.p(i)
    x = E.pos(RF, i); r = norm(x)
    ks = H.rotational_flattening.effect.payload('CentralBody').payload('OblateSpheroid').love_number
    kp = P.rotational_flattening.effect.payload('OrbitingBody').payload('OblateSpheroid').love_number
    F = (const(0),) * 3; tq = []
    for (m, k, R, om, b) in ((P.mass, ks, H.radius, E.spin(h), h), (H.mass, kp, P.radius, E.spin(i), i)):
        if b in still: tq.append((const(0),) * 3); continue
        # potential of the flattened body: C |Omega|^2 (3 cos^2 - 1)/r^3
        C = m * k * R ** 5 / const(6)
        s = dot(x, om); w2 = dot(om, om)
        F = vadd(F, vscale(const(-3) * C * w2 / r ** 5 + const(15) * C * s * s / r ** 7, x))
        F = vadd(F, vscale(const(-6) * C * s / r ** 5, om))
        tq.append(vscale(const(6) * C * s / r ** 5, cross(x, om)))
    return F, tq[0], tq[1]

def oblate(c, n, h, mm, off, dl=True, acc=True, still=()):
    ov = {}
    for i in range(n):
        P = 'u.particles[%d].' % i
        for w in ('CentralBody', 'OrbitingBody'): ov[P + RF + '.effect.%s.0.$' % w] = 'OblateSpheroid'
        if i in off:
            for f in ('star', 'planet'):
                for g in ('factor_for_the_force_induced_by_%s_rotation', 'orthogonal_component_of_the_force_induced_by_%s_rotation'):
                    ov[P + RF + '.parameters.internal.' + g % f] = const(0)
        if i in still:
            for k in 'xyz': ov[P + 'angular_momentum.' + k] = const(0)
    E = EffRun(c, 'oblate n=%d host=%d most massive=%d%s%s%s' % (n, h, mm, ' off=%s' % (off,) if off else '', '' if dl and acc else ' torques only' if dl else ' accelerations only', ' not rotating: %s' % (still,) if still else ''),
               n, {RF: orbiting(n, h, off)}, mm, dl=dl, acc=acc, ov=ov)
    for i in range(n):
        if i not in still: E.r.assume(lt(const(0), dot(E.spin(i), E.spin(i))))
    E.go()
    on = [i for i in range(n) if i != h and i not in off]
    fs = {i: force(c, E, i, still) for i in on}
    def post(s, u):
        H = E.p(h)
        o = {i: u.particles[i].rotational_flattening.parameters.output for i in range(n)}
        if acc:
            tot = (const(0),) * 3
            for i in on:
                E.vec(s, 'acceleration of body %d' % i, o[i].acceleration, vscale(const(1) / E.p(i).mass, fs[i][0]))
                tot = vadd(tot, fs[i][0])
            E.vec(s, 'acceleration of the host', o[h].acceleration, vscale(const(-1) / H.mass, tot))
        if dl:
            tot = (const(0),) * 3
            for i in on:
                E.vec(s, 'torque on body %d' % i, o[i].dangular_momentum_dt, fs[i][2])
                tot = vadd(tot, fs[i][1])
            E.vec(s, 'torque on the host', o[h].dangular_momentum_dt, tot)
            if acc:
                L = (const(0),) * 3
                for i in on: L = vadd(L, vadd(o[i].dangular_momentum_dt.xyz, cross(E.pos(RF, i), vscale(E.p(i).mass, o[i].acceleration.xyz))))
                E.vec(s, 'angular momentum of spins and orbits is conserved: host', o[h].dangular_momentum_dt, vscale(const(-1), L))
    E.each(post)
    E.r.returns_iff(True)
