"""P03: building a universe puts the system in its barycentric frame and keeps every body."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.assume('Evolver::new and the evolver look-ups are abstracted here (P15 covers them): any evolver value, any looked-up radius / gyration radius')
    c.set_signs(lambda n: POS if n.endswith('.mass') or n.endswith('.mass_g') else ANY)
    for n in range(1, 11): c.group('center of mass n=%d' % n, com, c, n)
    for n in range(1, 5): c.group('Universe::new n=%d' % n, new, c, n, False)
    for n in (6, 8, 10): c.group('Universe::new n=%d' % n, new, c, n, False, full=False)
    for n in (1, 2, 3): c.group('Universe::new evolving n=%d' % n, new, c, n, True)
    for n in (2, 3, 4): c.group('Universe::new general relativity n=%d' % n, new, c, n, False, gr=True)
    c.group('Universe::new too many bodies', toomany, c)
    c.group('Particle::new', pnew, c)

def pvec(c, r, n):
    v = VecV(tuple(r.ctx.mk('p[%d]' % i, c.PT) for i in range(n)))
    return v

def bary(c, ps, n, what):
    M = sum_(p.mass for p in ps)
    return tuple(sum_(p.mass * getattr(getattr(p, what), k) for p in ps) / M for k in 'xyz')

def com(c, n):
    r = Run(c, 'particles::universe::calculate_center_of_mass', 'n=%d' % n)
    v = pvec(c, r, n)
    ty = c.mir.types[r.argty(0)]['e']
    r.args = [r.root('p', ty, v)]
    r.go()
    ps = [V(c.mir, v.f[i], c.PT) for i in range(n)]
    x = bary(c, ps, n, 'heliocentric_position'); w = bary(c, ps, n, 'heliocentric_velocity')
    r.ret({'0.x': x[0], '0.y': x[1], '0.z': x[2], '1.x': w[0], '1.y': w[1], '1.z': w[2]})
    r.returns_iff(True); r.frame({})

EVN = 'posidonius::effects::evolution::Evolver::'
def ev_contracts(c):
    def mk_new(ex, st, args, f, where):
        ev = Ctx(c.mir).mk('evolver%d' % ex.fresh(), c.mir.ty('effects::evolution::Evolver'))
        return [(st, ev)]
    def look(tag):
        def h(ex, st, args, f, where):
            return [(st, var('%s%d' % (tag, ex.fresh())))]
        return h
    return {EVN + 'new': mk_new, EVN + 'radius': look('evradius'), EVN + 'radius_of_gyration_2': look('evgyr')}

def new(c, n, evolving, gr=False, full=True):
    ov = {}
    for i in range(n):
        if not gr: ov['p[%d].general_relativity.effect.$' % i] = 'Disabled'
        else:
            ov['p[%d].general_relativity.effect.$' % i] = 'CentralBody' if i == n - 1 else 'OrbitingBody'
            ov['p[%d].general_relativity.effect.CentralBody.0.$' % i] = 'Kidder1995'
        ov['p[%d].tides.effect.$' % i] = 'Disabled'; ov['p[%d].rotational_flattening.effect.$' % i] = 'Disabled'
        ov['p[%d].disk.effect.$' % i] = 'Disabled'; ov['p[%d].wind.effect.$' % i] = 'Disabled'
        ov['p[%d].evolution.$' % i] = 'BolmontMathis2016' if evolving else 'NonEvolving'
    for e in ('tides', 'rotational_flattening', 'disk', 'wind'): ov['ce.' + e] = False
    ov['ce.general_relativity'] = gr; ov['ce.evolution'] = evolving
    # the most massive body is the last one
    r = Run(c, 'particles::universe::Universe::new', 'n=%d%s%s' % (n, ' evolving' if evolving else '', ' GR' if gr else ''), ov=ov, contracts=ev_contracts(c))
    r.no_replay = True
    v = pvec(c, r, n)
    r.args = [var('t0'), var('tlim'), v, r.ctx.mk('ce', r.argty(3))]
    ps = [V(c.mir, v.f[i], c.PT) for i in range(n)]
    if gr:
        for i in range(n - 1): r.assume(lt(ps[i].mass, ps[n - 1].mass))
    r.go()
    X = bary(c, ps, n, 'heliocentric_position'); W = bary(c, ps, n, 'heliocentric_velocity')
    exp_common = {'initial_time': var('t0'), 'time_limit': var('tlim'), 'n_particles': n}
    if not r.results: raise Skip('no returning path')
    r.returns_iff(True)
    for s, val in r.states():
        u = V(c.mir, val, c.U)
        L = lambda name, got, want: c.ob('Universe::new %s: %s' % (r.label, name), list(s.pc), eqv(got, want), info={'path': name, 'got': got, 'want': want}, run=r)
        L('n_particles', u.n_particles, n); L('initial_time', u.initial_time, var('t0')); L('time_limit', u.time_limit, var('tlim'))
        for i in range(n):
            q = u.particles[i]; p = ps[i]
            L('id of body %d' % i, q.id, i)
            for a, k in enumerate('xyz'):
                if not full and a: continue
                L('barycentric position %d.%s' % (i, k), getattr(q.inertial_position, k), getattr(p.heliocentric_position, k) - X[a])
                L('barycentric velocity %d.%s' % (i, k), getattr(q.inertial_velocity, k), getattr(p.heliocentric_velocity, k) - W[a])
                L('input position kept %d.%s' % (i, k), getattr(q.heliocentric_position, k), getattr(p.heliocentric_position, k))
                L('input velocity kept %d.%s' % (i, k), getattr(q.heliocentric_velocity, k), getattr(p.heliocentric_velocity, k))
                L('spin kept %d.%s' % (i, k), getattr(q.spin, k), getattr(p.spin, k))
            L('mass kept %d' % i, q.mass, p.mass); L('mass_g kept %d' % i, q.mass_g, p.mass_g)
            if not evolving:
                for f in ('radius', 'radius_of_gyration_2', 'moment_of_inertia'): L('%s kept %d' % (f, i), getattr(q, f), getattr(p, f))
                for k in 'xyz': L('angular momentum kept %d.%s' % (i, k), getattr(q.angular_momentum, k), getattr(p.angular_momentum, k))
            else:
                # either nothing was updated or the moment of inertia and angular momentum match the new radius and gyration radius
                upd = or_(not_(eq(q.radius, p.radius)), not_(eq(q.radius_of_gyration_2, p.radius_of_gyration_2)))
                I = q.mass * q.radius_of_gyration_2 * q.radius * q.radius
                c.ob('Universe::new %s: moment of inertia of body %d follows its evolved radius' % (r.label, i), list(s.pc) + [upd], same(q.moment_of_inertia, I), run=r)
                for k in 'xyz': c.ob('Universe::new %s: angular momentum of body %d.%s follows its evolved radius' % (r.label, i, k), list(s.pc) + [upd], same(getattr(q.angular_momentum, k), getattr(p.spin, k) * I), run=r)
            if gr and i < n - 1:
                h = ps[n - 1]
                L('relativistic mass factor %d' % i, q.general_relativity.parameters.internal.factor, h.mass_g * p.mass_g / ((h.mass_g + p.mass_g) * (h.mass_g + p.mass_g)))
        # the centre of mass is at rest at the origin
        for k in 'xyz' if full else 'x':
            for w in ('inertial_position', 'inertial_velocity'):
                tot = sum_(ps[i].mass * getattr(getattr(u.particles[i], w), k) for i in range(n))
                c.ob('Universe::new %s: centre of mass %s.%s is zero' % (r.label, w, k), list(s.pc), same(tot, const(0)), run=r)
        for i in range(n, 10): L('slot %d is empty' % i, u.particles[i].mass, const(0))
        L('one evolver per slot', len(u.particles_evolvers), 10)

def toomany(c):
    n = 11
    ov = {}
    for i in range(n):
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'disk', 'wind'): ov['p[%d].%s.effect.$' % (i, e)] = 'Disabled'
        ov['p[%d].evolution.$' % i] = 'NonEvolving'
    for e in ('tides', 'rotational_flattening', 'disk', 'wind', 'general_relativity', 'evolution'): ov['ce.' + e] = False
    r = Run(c, 'particles::universe::Universe::new', 'n=11', ov=ov, contracts=ev_contracts(c)); r.no_replay = True
    r.args = [var('t0'), var('tlim'), pvec(c, r, n), r.ctx.mk('ce', r.argty(3))]
    r.go()
    r.returns_iff(False, 'the bodies fit')

def pnew(c):
    r = Run(c, 'particles::particle::Particle::new', '')
    r.auto_args(['mass', 'radius', 'gyr', 'pos', 'vel', 'spin'])
    r.go()
    K2 = const(c.mir.const_f64('constants::K2'))
    m, R, g = var('mass'), var('radius'), var('gyr')
    I = m * g * g * R * R
    S = [var('spin.' + k) for k in 'xyz']
    e = {'mass': m, 'mass_g': m * K2, 'radius': R, 'radius_of_gyration_2': g * g, 'moment_of_inertia': I, 'norm_spin_vector_2': dot(S, S)}
    for i, k in enumerate('xyz'):
        e['heliocentric_position.' + k] = var('pos.' + k); e['heliocentric_velocity.' + k] = var('vel.' + k)
        e['spin.' + k] = S[i]; e['angular_momentum.' + k] = I * S[i]
    r.ret(e); r.returns_iff(True)
