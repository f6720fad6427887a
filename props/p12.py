"""P12: protoplanetary disk migration (Alibert et al. 2013)."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.assume('heliocentric coordinates are those of the current inertial state (property P05)')
    c.set_signs(signs)
    for n in (2, 3, 4):
        for h, mm in placements(n):
            c.group('disk n=%d host=%d most massive=%d' % (n, h, mm), disk, c, n, h, mm, ())
    c.group('disk with a body outside it', disk, c, 3, 0, 0, (2,))
    c.group('disk with bodies outside it', disk, c, 4, 1, 0, (0, 3))
    for n in (5, 10): c.group('disk n=%d' % n, disk, c, n, 0, 0, ())
    for n, h in ((2, 0), (3, 0), (3, 2)): c.group('bodies inside the inner edge n=%d host=%d' % (n, h), disk, c, n, h, h, (), inner=tuple(i for i in range(n) if i != h))
    c.group('one body inside the inner edge, the other outside', disk, c, 3, 0, 0, (), inner=(1,))
    c.group('accelerations not requested', disk, c, 3, 0, 0, (), acc=False)

def signs(name):
    if name.endswith(('.mass', '.radius', '.mass_g', '.moment_of_inertia', 'edge_distance', '.alpha', 'lifetime', 'mean_molecular_weight', 'surface_density_normalization')): return POS
    return ANY

def timescale(c, E, i, time):
    h = E.hosts['disk']; H, P = E.p(h), E.p(i)
    D = H.disk.effect.payload('CentralBody')
    x, v = E.pos('disk', i), E.vel('disk', i)
    r = norm(x); gm = P.mass_g + H.mass_g
    a = gm * r / (const(2) * gm - r * dot(v, v))
    kB, mH = const(c.mir.const_f64('constants::BOLTZMANN_CONSTANT')), const(c.mir.const_f64('constants::MASS_HYDROGEN_ATOM'))
    T = const(280) * powf(r, -0.5) * H.mass
    cs2 = kB * T / (D.mean_molecular_weight * mH)
    omega = sqrt(H.mass_g / r ** 3)
    nu = D.alpha * cs2 / omega
    vr = const(-3) * nu / (const(2) * a)
    sig = D.surface_density_normalization / r * fn('exp', -r / D.outer_edge_distance) * (const(1) - sqrt(D.inner_edge_distance / r)) * fn('exp', -time / D.lifetime)
    adot = vr * rmin(const(1), const(2) * sig * a * a / P.mass)
    return -a / adot

def disk(c, n, h, mm, off, acc=True, inner=()):
    E = EffRun(c, 'disk n=%d host=%d most massive=%d%s%s%s' % (n, h, mm, ' off=%s' % (off,) if off else '', '' if acc else ' accelerations not requested', ' inside the inner edge: %s' % (inner,) if inner else ''),
               n, {'disk': orbiting(n, h, off)}, mm, dl=True, acc=acc)
    on = [i for i in range(n) if i != h and i not in off]
    D = E.p(h).disk.effect.payload('CentralBody')
    for i in on:
        c1 = lt(D.inner_edge_distance, norm(E.pos('disk', i)))
        E.r.assume(not_(c1) if i in inner else c1)
    E.go()
    time = var('time')
    def post(s, u):
        out = {i: u.particles[i].disk.parameters.output.acceleration for i in range(n)}
        if not acc:
            for i in range(n):
                E.vec(s, 'disk acceleration of body %d untouched' % i, out[i], E.p(i).disk.parameters.output.acceleration.xyz)
                E.vec(s, 'additional acceleration of body %d untouched' % i, u.particles[i].inertial_additional_acceleration, E.p(i).inertial_additional_acceleration.xyz)
            return
        tot = (const(0),) * 3
        for i in on:
            x, v = E.pos('disk', i), E.vel('disk', i)
            if i in inner: a = (const(0),) * 3
            else:
                tau = timescale(c, E, i, time)
                a = vscale(const(-1) / tau, v)                                                # migration
                te = const_f(0.1) * tau
                a = vadd(a, vscale(const(-2) / te * dot(x, v) / dot(x, x), x))                # eccentricity damping
                a = vadd(a, (const(0), const(0), const(-2) / te * v[2]))                       # inclination damping
            E.vec(s, 'disk acceleration of body %d' % i, out[i], a)
            tot = vadd(tot, vscale(E.p(i).mass, out[i].xyz))
        E.vec(s, 'disk acceleration of the host', out[h], vscale(const(-1) / E.p(h).mass, tot))
        for i in off: E.vec(s, 'disk acceleration of body %d (no disk) untouched' % i, out[i], E.p(i).disk.parameters.output.acceleration.xyz)
    E.each(post)
    E.r.returns_iff(True)
