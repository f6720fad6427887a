"""P13: magnetised wind braking (Bolmont & Mathis 2016, equation 14)."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.set_signs(esigns)
    for n in range(1, 11):
        roles = [['Interaction'] * n]
        if n > 1: roles += [['Interaction'] + ['Disabled'] * (n - 1), ['Disabled'] * (n - 1) + ['Interaction']]
        for k, ro in enumerate(roles): c.group('wind n=%d roles %d' % (n, k), wind, c, n, ro)
    c.group('torques not requested', wind, c, 3, ['Interaction', 'Disabled', 'Interaction'], False)
    c.group('constructor', new, c)

def sat(c, E, i):
    w = E.p(i).wind.parameters
    R = const(c.mir.const_f64('constants::R_SUN'))
    om = E.spin(i); w2 = dot(om, om)
    s = w.input.rotation_saturation
    f = sqrt(E.p(i).radius / R / E.p(i).mass)
    lim = ite(lt(sqrt(w2), s), w2, s * s)
    return vscale(-(w.input.k_factor * lim * f), om)

def wind(c, n, roles, dl=True):
    ov = {}
    for i in range(n):
        P = 'u.particles[%d].' % i
        s = var(P + 'wind.parameters.input.rotation_saturation')
        ov[P + 'wind.parameters.internal.rotation_saturation_2'] = s * s
        for e in ('tides', 'rotational_flattening', 'general_relativity'):
            for k in 'xyz': ov[P + e + '.parameters.output.dangular_momentum_dt.' + k] = const(0)
        if roles[i] == 'Disabled':
            for k in 'xyz': ov[P + 'wind.parameters.output.dangular_momentum_dt.' + k] = const(0)
    E = EffRun(c, 'wind %s%s' % (','.join(r[0] for r in roles), '' if dl else ' torques not requested'), n, {'wind': roles}, 0, dl=dl, acc=True, ov=ov)
    E.go()
    def post(s, u):
        for i in range(n):
            want = sat(c, E, i) if roles[i] == 'Interaction' else (const(0),) * 3
            if not dl: want = E.p(i).dangular_momentum_dt.xyz
            E.vec(s, 'torque on body %d' % i, u.particles[i].dangular_momentum_dt, want)
            E.vec(s, 'no acceleration of body %d' % i, u.particles[i].inertial_additional_acceleration, (const(0),) * 3)
            E.vec(s, 'angular momentum of body %d untouched' % i, u.particles[i].angular_momentum, E.p(i).angular_momentum.xyz)
    E.each(post)
    E.r.returns_iff(True)

def new(c):
    for v in ('Interaction', 'Disabled'):
        ty = c.mir.ty('effects::wind::WindEffect')
        k = [x['n'] for x in c.mir.types[ty]['vs']].index(v)
        r = Run(c, 'effects::wind::Wind::new', v)
        r.args = [En(k, {k: ()}, ty), var('k_factor'), var('rotation_saturation')]
        r.go()
        r.ret({'parameters.input.k_factor': var('k_factor'), 'parameters.input.rotation_saturation': var('rotation_saturation'),
               'parameters.internal.rotation_saturation_2': var('rotation_saturation') * var('rotation_saturation')})
        for s, val in r.results:
            w = V(c.mir, val, r.F.locals[0])
            c.ob('Wind::new %s: effect' % v, list(s.pc), w.effect.variant() == v, run=r)
        r.returns_iff(True)
