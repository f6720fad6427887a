"""P07: constant time lag tides (Bolmont et al. 2015, equations 5-9 and 25)."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.assume('heliocentric coordinates are those of the current inertial state (property P05)')
    c.set_signs(esigns)
    c.samplers.append(sampler)
    for n in (2, 3, 4):
        for h, mm in placements(n):
            c.group('constant time lag n=%d host=%d most massive=%d' % (n, h, mm), ctl, c, n, h, mm, ())
    c.group('constant time lag with a body without tides', ctl, c, 3, 0, 0, (2,))
    c.group('constant time lag with a body without tides (2)', ctl, c, 4, 1, 0, (0, 3))
    for n in (5, 8, 10): c.group('constant time lag n=%d' % n, ctl, c, n, 0, 0, ())
    for ev in ('BolmontMathis2016', 'GalletBolmont2017', 'LeconteChabrier2013'):
        c.group('dynamical tide of the host %s' % ev, ctl, c, 2, 0, 0, (), host_ev=ev)
        c.group('dynamical tide of the planet %s' % ev, ctl, c, 2, 0, 0, (), planet_ev=ev)
        c.group('dynamical tide of the planet, host listed last %s' % ev, ctl, c, 3, 2, 2, (), planet_ev=ev)
    c.group('dynamical tide of both', ctl, c, 2, 0, 0, (), host_ev='BolmontMathis2016', planet_ev='BolmontMathis2016')
    c.group('dynamical tide of the host n=3', ctl, c, 3, 0, 0, (), host_ev='BolmontMathis2016')
    for dl, acc in ((True, False), (False, True)):
        c.group('only %s' % ('torques' if dl else 'accelerations'), ctl, c, 3, 0, 0, (), dl=dl, acc=acc)
    for n in (2, 3): c.group('tidal energy dissipation n=%d' % n, denergy, c, n)

def sampler(name, rng):
    if name.endswith('mass_g'): return rng.uniform(0.5, 2)
    return None

def mean_motion(gm, x, v):
    """n = sqrt(gm/a^3) with a = q/(1-e) (the osculating orbit)"""
    r = norm(x); v2 = dot(v, v); h = cross(x, v)
    s = dot(h, h) / gm
    t = const(1) + s * (v2 / gm - const(2) / r)
    e = ite(le(t, const(0)), const(0), sqrt(t))
    q = s / (const(1) + e)
    return sqrt(gm) * powf(q / (const(1) - e), -1.5)

def sigma(c, E, i, j):
    """dissipation factor of body i for the tide raised by body j"""
    p = E.p(i); q = E.p(j)
    base = p.tides.parameters.internal.scaled_dissipation_factor
    ev = p.evolution.variant()
    if ev not in ('BolmontMathis2016', 'GalletBolmont2017', 'LeconteChabrier2013'): return base
    role = 'CentralBody' if i == E.hosts['tides'] else 'OrbitingBody'
    par = p.tides.effect.payload(role).payload('ConstantTimeLag')
    pl = j if i == E.hosts['tides'] else i
    n = mean_motion(E.p(E.hosts['tides']).mass_g + E.p(pl).mass_g, E.pos('tides', pl), E.vel('tides', pl))
    w = norm(E.spin(i))
    half = fabs(w - n)
    K2 = const(c.mir.const_f64('constants::K2')); sm = const(c.mir.const_f64('constants::SMOOTHING_FACTOR_DYN_TIDE_COROTATION'))
    hs = rmax(half, sm)
    dyn = par.dissipation_factor_scale * (const(2) * K2 / (const(3) * p.radius ** 5) * p.tides.parameters.internal.lag_angle / hs + par.dissipation_factor)
    return ite(lt(half, w), dyn, base)

def force(c, E, i):
    """tidal force on planet i, the radial one without stellar dissipation and the two torques"""
    h = E.hosts['tides']; H, P = E.p(h), E.p(i)
    x, v = E.pos('tides', i), E.vel('tides', i)
    r = norm(x); vr = dot(x, v) / r
    K2 = const(c.mir.const_f64('constants::K2'))
    ks = H.tides.effect.payload('CentralBody').payload('ConstantTimeLag').love_number
    kp = P.tides.effect.payload('OrbitingBody').payload('ConstantTimeLag').love_number
    sh, sp = sigma(c, E, h, i), sigma(c, E, i, h)
    Ps = const_f(4.5) * P.mass ** 2 * H.radius ** 10 * sh / r ** 7
    Pp = const_f(4.5) * H.mass ** 2 * P.radius ** 10 * sp / r ** 7
    Fr_cons = const(-3) * K2 / r ** 7 * (P.mass ** 2 * H.radius ** 5 * ks + H.mass ** 2 * P.radius ** 5 * kp)
    Fr_dp = const(-3) * vr / r * Pp; Fr_ds = const(-3) * vr / r * Ps
    os_, op = E.spin(h), E.spin(i)
    er = vscale(const(1) / r, x)
    F = vscale(Fr_cons + Fr_dp + Fr_ds + (Ps + Pp) * vr / r, er)
    F = vadd(F, vscale(Ps / r, vsub(cross(os_, x), v)))
    F = vadd(F, vscale(Pp / r, vsub(cross(op, x), v)))
    hvec = cross(x, v)
    def torque(Pt, om): return vscale(Pt, vsub(vsub(vscale(r, om), vscale(dot(x, om) / r, x)), vscale(const(1) / r, hvec)))
    return F, torque(Pp, op), torque(Ps, os_), Fr_dp, Pp

def ctl(c, n, h, mm, off, host_ev=None, planet_ev=None, dl=True, acc=True):
    ov = {}
    for i in range(n):
        P = 'u.particles[%d].' % i
        for w in ('CentralBody', 'OrbitingBody'): ov[P + 'tides.effect.%s.0.$' % w] = 'ConstantTimeLag'
        ev = host_ev if i == h else planet_ev
        if ev:
            ov[P + 'evolution.$'] = ev
            if ev == 'LeconteChabrier2013': ov[P + 'evolution.LeconteChabrier2013.0'] = True
    pairs = {}
    if host_ev or planet_ev:
        # left over from an earlier evaluation
        for i in range(n):
            if i != h: pairs[h * 10 + i] = var('stale_host_%d' % i); pairs[i * 10 + h] = var('stale_planet_%d' % i)
    E = EffRun(c, 'constant time lag n=%d host=%d most massive=%d%s%s%s%s' % (n, h, mm, ' off=%s' % (off,) if off else '', ' host ' + host_ev if host_ev else '', ' planet ' + planet_ev if planet_ev else '', '' if dl and acc else ' torques only' if dl else ' accelerations only'),
               n, {'tides': orbiting(n, h, off)}, mm, dl=dl, acc=acc, ov=ov, pairs=pairs)
    E.go()
    on = [i for i in range(n) if i != h and i not in off]
    fs = {i: force(c, E, i) for i in on}
    def post(s, u):
        H = E.p(h)
        if acc:
            tot = (const(0),) * 3
            for i in on:
                E.vec(s, 'tidal acceleration of body %d' % i, u.particles[i].tides.parameters.output.acceleration, vscale(const(1) / E.p(i).mass, fs[i][0]))
                tot = vadd(tot, vscale(E.p(i).mass, u.particles[i].tides.parameters.output.acceleration.xyz))
            E.vec(s, 'tidal acceleration of the host', u.particles[h].tides.parameters.output.acceleration, vscale(const(-1) / H.mass, tot))
        if dl:
            tot = (const(0),) * 3
            for i in on:
                E.vec(s, 'tidal torque on body %d' % i, u.particles[i].tides.parameters.output.dangular_momentum_dt, vscale(const(-1), fs[i][1]))
                tot = vadd(tot, fs[i][2])
            if acc:
                # the tide conserves the angular momentum of spins and orbits
                L = (const(0),) * 3
                for i in on:
                    o = u.particles[i].tides.parameters.output
                    L = vadd(L, vadd(o.dangular_momentum_dt.xyz, cross(E.pos('tides', i), vscale(E.p(i).mass, o.acceleration.xyz))))
                E.vec(s, 'tidal torque on the host = - the torques on the planets and their orbits', u.particles[h].tides.parameters.output.dangular_momentum_dt, vscale(const(-1), L))
            if not host_ev or n == 2: E.vec(s, 'tidal torque on the host', u.particles[h].tides.parameters.output.dangular_momentum_dt, vscale(const(-1), tot))
    E.each(post)
    E.r.returns_iff(True)

def denergy(c, n):
    E = EffRun(c, 'n=%d' % n, n, {'tides': orbiting(n, 0)}, 0, fn='particles::universe::Universe::calculate_denergy_dt', args=lambda r, u: [u])
    E.go()
    exp = {}
    for i in range(1, n):
        p = E.p(i); T_ = p.tides
        x, v = T_.coordinates.position.xyz, T_.coordinates.velocity.xyz
        I = T_.parameters.internal
        d = I.distance
        er = vscale(const(1) / d, x)
        F = vadd(vscale(I.radial_component_of_the_tidal_force_dissipative_part_when_star_as_point_mass + I.orthogonal_component_of_the_tidal_force_due_to_planetary_tide * I.radial_velocity / d, er),
                 vscale(I.orthogonal_component_of_the_tidal_force_due_to_planetary_tide / d, vsub(cross(p.spin.xyz, x), v)))
        exp['u.particles[%d].tides.parameters.internal.denergy_dt' % i] = -(dot(F, v)) - dot(T_.parameters.output.dangular_momentum_dt.xyz, p.spin.xyz)
    E.r.frame(exp)
    E.r.returns_iff(True)
