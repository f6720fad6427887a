"""P22: every record holds the twenty documented numbers of every body, of the state at the recorded time."""
from engine.spec import *
from props.lib import *
from props.intg import *
from props.out import *

def check(c):
    std_assumptions(c)
    c.assume('bincode appends fixed-width little-endian numbers and does not fail', 'heliocentric coordinates, spin refresh and tidal dissipation are those of their contracts (P05, P06, P28)',
             'the body identifiers are the positions in the list of bodies (P03)')
    c.set_signs(isigns)
    c.group('record size', size, c)
    for name in MOD:
        for n, mm, tides in ((1, 0, False), (2, 0, False), (2, 1, True), (3, 1, True), (10, 4, False)): 
            for first in (False, True):
                if first and n > 2: continue
                c.group('%s n=%d tides=%s first=%s' % (name, n, tides, first), record, c, name, n, mm, tides, first)

def size(c):
    r = Run(c, 'integrator::output::n_bytes_per_particle_in_historic_snapshot', '')
    r.go(); r.ret(8 * 19 + 4); r.returns_iff(True)

def record(c, name, n, mm, tides, first):
    ex = {}
    for i in range(n):
        P = 's.universe.particles[%d].' % i
        for e in ('tides', 'disk'): ex[P + e + '.effect.$'] = ivar(P + e + '.effect.$', range(3))
        for w in ('CentralBody', 'OrbitingBody'): ex[P + 'tides.effect.%s.0.$' % w] = ivar(P + 'tides.effect.%s.0.$' % w, range(4))
    if tides: ex['s.universe.hosts.index.tides'] = mm
    R = run_iterate(c, name, n, mm, 'n=%d most massive=%d tides=%s %s' % (n, mm, tides, 'first' if first else 'later'), extra=ex, considered=('tides',) if tides else ())
    q = R.r; t = var('s.current_time')
    lh = var('s.last_historic_snapshot_time')
    if first: q.assume(lt(lh, const(0)))
    else: q.assume(le(const(0), lh)); q.assume(le(lh + var('s.historic_snapshot_period'), t))
    R.st0 = q.st.copy()
    R.go()
    if not q.results: raise Skip('the step does not return')
    S = R.sim(); S.helio(); S.u('calculate_spin_and_evolving_quantities', t, True)
    if tides: S.u('calculate_denergy_dt')
    pt = c.mir.ty('particles::particle::Particle')
    def vid(path, ty, name):
        return [v['n'] for v in c.mir.types[ty]['vs']].index(name)
    want = []
    for i in range(n):
        p = S.p(i); P = 's.universe.particles[%d].' % i
        e = p.tides.effect; te = force(e._v); ty = c.mir.types[e._ty]
        love = const(0)
        for w in ('CentralBody', 'OrbitingBody'):
            m = e.payload(w); k = vid(None, m._ty, 'ConstantTimeLag'); mv = force(m._v)
            love = ite(and_(ieq(te.d, vid(None, e._ty, w)), ieq(mv.d, k)), m.payload('ConstantTimeLag').love_number, love)
        ti, di = p.tides.parameters.internal, p.disk.parameters.internal
        sp = vscale(const(1) / p.moment_of_inertia, p.angular_momentum.xyz)
        L = [('time', 'd', t), ('time step', 'd', var('s.time_step')), ('identifier', 'i', i)]
        for what, x in (('position', p.inertial_position.xyz), ('spin', sp), ('velocity', p.inertial_velocity.xyz)): L += [(what + '.' + d, 'd', y) for d, y in zip('xyz', x)]
        L += [('mass', 'd', var(P + 'mass')), ('radius', 'd', var(P + 'radius')), ('radius of gyration squared', 'd', var(P + 'radius_of_gyration_2')), ('love number', 'd', love),
              ('scaled dissipation factor', 'd', ti.scaled_dissipation_factor), ('lag angle', 'd', ti.lag_angle), ('tidal dissipation', 'd', ti.denergy_dt), ('migration timescale', 'd', di.migration_timescale)]
        want += [('body %d %s' % (i, w), k, x) for w, k, x in L]
    N = 'record %s %s: ' % (name, q.label)
    lay = ''.join(k for _, k, _ in want)
    for s, _ in q.states():
        W = [e for e in s.trace if e.name == 'write']
        c.ob(N + 'number of values', list(s.pc), len(W) == len(want), info={'path': 'history', 'layout': lay, 'got': len(W), 'want': len(want)}, run=q)
        if len(W) != len(want): continue
        for k, (e, (w, code, x)) in enumerate(zip(W, want)):
            if e.args[0] != code: c.ob(N + w + ' has its width', list(s.pc), False, info={'path': 'history', 'layout': lay, 'got': k, 'want': k}, run=q); continue
            c.ob(N + w, list(s.pc) + list(S.st.pc), and_(e.guard, eqv(e.args[1], x)), info={'path': 'history[%d]' % k, 'layout': lay, 'got': e.args[1], 'want': x}, run=q)
