"""P16: one LeapFrog step is the drift-kick-drift map of the forces."""
from engine.spec import *
from props.lib import *
from props.intg import *

def check(c):
    std_assumptions(c)
    c.assume('gravity, heliocentric coordinates and effects are those of their own contracts (P01, P05, P07-P14): the specification composes them',
             'half of the time step is stored as such (established by LeapFrog::new, kept by every step)')
    c.set_signs(isigns)
    for n, mm, eff in ((2, 0, ()), (2, 1, ()), (3, 1, ()), (5, 0, ()), (10, 0, ()), (2, 0, ('wind', 'disk')), (2, 1, ('wind', 'disk')), (3, 2, ('wind', 'disk'))):
        c.group('step n=%d most massive=%d %s' % (n, mm, ' '.join(eff)), step, c, n, mm, eff)

def step(c, n, mm, eff):
    R = IntRun(c, 'LeapFrog', 'iterate', 'n=%d most massive=%d %s' % (n, mm, ' '.join(eff)), n, mm, eff,
               ov={'s.last_historic_snapshot_time': const(0), 's.historic_snapshot_period': const(10), 's.last_recovery_snapshot_time': const(0), 's.recovery_snapshot_period': const(10)})
    R.r.assume(lt(var('s.current_time'), const(10)))
    R.st0 = R.r.st.copy()
    S = R.sim(); dt = var('s.time_step'); h = dt / const(2); t0 = var('s.current_time')
    S.helio(); S.effects(t0, True, True, False)
    for i in range(n):
        p = S.p(i)
        S.pset(i, 'inertial_position', vadd(p.inertial_position.xyz, vscale(h, p.inertial_velocity.xyz)))
        S.pset(i, 'angular_momentum', vadd(p.angular_momentum.xyz, vscale(h, p.dangular_momentum_dt.xyz)))
    S.gravity(); S.helio(); S.effects(t0 + h, True, True, True)
    for i in range(n):
        p = S.p(i)
        v = vadd(p.inertial_velocity.xyz, vscale(dt, vadd(p.inertial_acceleration.xyz, p.inertial_additional_acceleration.xyz)))
        S.pset(i, 'inertial_velocity', v)
        S.pset(i, 'inertial_position', vadd(p.inertial_position.xyz, vscale(h, v)))
        S.pset(i, 'angular_momentum', vadd(p.angular_momentum.xyz, vscale(h, p.dangular_momentum_dt.xyz)))
    R.go()
    q = R.r
    for s, _ in q.states():
        a = q.post(s, 's')
        for i in range(n):
            for f in ('inertial_position', 'inertial_velocity', 'angular_momentum', 'spin', 'mass', 'radius', 'moment_of_inertia'):
                got, want = getattr(a.universe.particles[i], f), getattr(S.p(i), f)
                for k, g, w in (zip(('.x', '.y', '.z'), got.xyz, want.xyz) if isinstance(got, V) else [('', got, want)]):
                    c.ob('step %s: %s of body %d%s' % (q.label, f, i, k), list(s.pc) + list(S.st.pc), same(lift(g), lift(w)), info={'path': 's.universe.particles[%d].%s%s' % (i, f, k), 'got': g, 'want': w}, run=q)
        c.ob('step %s: time' % q.label, list(s.pc), same(lift(a.current_time), t0 + dt), info={'path': 's.current_time', 'got': a.current_time, 'want': t0 + dt}, run=q)
    q.returns_iff(and_(*S.st.pc[len(q.hyps):]), 'no collision, disruption or ejection at mid-step')
