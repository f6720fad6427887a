"""P19: WHFast integrates velocity-dependent effects and spins by the implicit midpoint rule, half a step on each side."""
from engine.spec import *
from props.lib import *
from props.intg import *
from props.p17 import Alt, COORDS, whov, c_kepler

MINIT, MAXIT = 3, 10
def check(c):
    std_assumptions(c)
    c.assume('accelerations and torques of the effects are uninterpreted functions of the state here (P07-P14 are about them)',
             'the compensated-summation terms are zero before the step (shown to stay zero)', 'mass_g = G mass and half of the time step are stored as such')
    c.set_signs(isigns)
    for coords in COORDS:
        for n, mm in ((2, 0), (2, 1)) + (((3, 1),) if c.tier != 'quick' else ()):
            for eff in (('tides',), ('disk',)) if (n, mm) == (2, 0) else (('tides',),):
                c.group('%s n=%d most massive=%d %s' % (coords, n, mm, '+'.join(eff)), step, c, coords, n, mm, eff)
    # with the code's own effects: slower, but counterexamples can be replayed on the compiled code
    c.group('Jacobi n=2 wind+disk (real effects)', step, c, 'Jacobi', 2, 0, ('wind', 'disk'), True)
    for eff in (('rotational_flattening',), ('wind',), ('evolution',), ('general_relativity', 'Kidder1995'), ('general_relativity', 'Anderson1975'), ('tides', 'rotational_flattening', 'general_relativity', 'Kidder1995', 'disk', 'wind', 'evolution')):
        c.group('DemocraticHeliocentric n=2 %s' % '+'.join(eff), step, c, 'DemocraticHeliocentric', 2, 0, eff)

def torque(eff): return any(e in eff for e in ('tides', 'rotational_flattening', 'wind', 'evolution')) or 'Kidder1995' in eff

def step(c, coords, n, mm, eff, real=False):
    uty = c.mir.ty('particles::universe::Universe')
    K = c_kepler(c); E = uf_effects(c, uty, n, 'evolution' in eff)
    ov = whov(c, n, coords)
    for e in EFFECTS: ov['s.universe.consider_effects.' + e] = e in eff
    gi = [e for e in eff if e in ('Kidder1995', 'Anderson1975', 'Newhall1983')]
    ov['s.universe.general_relativity_implementation.$'] = gi[0] if gi else 'Disabled'
    R = IntRun(c, 'WHFast', 'iterate', '%s n=%d most massive=%d %s' % (coords, n, mm, '+'.join(eff)), n, mm, [e for e in eff if e in EFFECTS], ov=ov, contracts=K if real else dict(K, **E))
    R.r.assume(lt(var('s.current_time'), const(10))); R.r.no_replay = not real
    R.st0 = R.r.st.copy()
    R.go(); q = R.r
    if not q.results: raise Skip('the step does not return')
    spin = torque(eff); h = var('s.time_step') / const(2); eps2 = const_f(2.220446049250313e-16) ** 2
    eff_h = list(E.values())[0]
    def call(ex, st, cell, evol):
        path, _ = field_path(c.mir, R.ty, 'universe')
        return eff_h(ex, st, [Ptr(cell, path), var('s.current_time'), evol, spin, True, None], None, '')
    S = R.sim()
    def midpoint(evol):
        nonlocal S
        v0 = [S.p(i).inertial_velocity.xyz for i in range(n)]; L0 = [S.p(i).angular_momentum.xyz for i in range(n)]
        prev, prevL = v0, L0; cand = []
        for it in range(MAXIT):
            S.helio()
            if real: S.effects(var('s.current_time'), evol and it == 0, spin, True, 'WHFastOne' if coords == 'Jacobi' else 'WHFastTwo')
            else: call(q.ex, S.st, S.cell, evol and it == 0)
            v = [vadd(v0[i], vscale(h, S.p(i).inertial_additional_acceleration.xyz)) for i in range(n)]
            L = [vadd(L0[i], vscale(h, S.p(i).dangular_momentum_dt.xyz)) for i in range(n)] if spin else L0
            def small(a, b):
                d = sum_(dot(vsub(x, y), vsub(x, y)) for x, y in zip(a, b)); t = sum_(dot(x, x) for x in a)
                return lt(d / t, eps2)
            done = True if it == MAXIT - 1 else False if it < MINIT - 1 else and_(small(v, prev), small(L, prevL)) if spin else small(v, prev)
            cand.append((done, v, L)); prev, prevL = v, L
            for i in range(n):
                S.pset(i, 'inertial_velocity', vscale(const(1) / const(2), vadd(v0[i], v[i])))
                if spin: S.pset(i, 'angular_momentum', vscale(const(1) / const(2), vadd(L0[i], L[i])))
        v, L = cand[-1][1], cand[-1][2]
        for done, a, b in reversed(cand[:-1]):
            if done is False: continue
            v = [tuple(ite(done, x, y) for x, y in zip(p, r)) for p, r in zip(a, v)]; L = [tuple(ite(done, x, y) for x, y in zip(p, r)) for p, r in zip(b, L)]
        for i in range(n):
            S.pset(i, 'inertial_velocity', v[i]); S.pset(i, 'angular_momentum', L[i])
    midpoint(True)
    order = [mm] + [i for i in range(n) if i != mm]
    A = Alt(coords, [S.p(i).mass for i in order], const(c.mir.const_f64('constants::G')))
    x, v = A.step([S.p(i).inertial_position.xyz for i in order], [S.p(i).inertial_velocity.xyz for i in order], var('s.time_step'))
    for k, i in enumerate(order): S.pset(i, 'inertial_position', x[k]); S.pset(i, 'inertial_velocity', v[k])
    midpoint(False)
    for s, _ in q.states():
        a = q.post(s, 's')
        for i in range(n):
            for f in ('inertial_position', 'inertial_velocity', 'angular_momentum'):
                for d, g, e in zip('xyz', getattr(a.universe.particles[i], f).xyz, getattr(S.p(i), f).xyz):
                    c.ob('step %s: %s of body %d.%s' % (q.label, f, i, d), list(s.pc), same(lift(g), lift(e)), info={'path': 's.universe.particles[%d].%s.%s' % (i, f, d), 'got': g, 'want': e}, run=q)
            for f in ('radius', 'moment_of_inertia'):
                c.ob('step %s: %s of body %d' % (q.label, f, i), list(s.pc), same(lift(getattr(a.universe.particles[i], f)), lift(getattr(S.p(i), f))), run=q)
            for e, f in (('inertial_velocity_errors', 'velocity'), ('particle_angular_momentum_errors', 'angular momentum')):
                for d, g in zip('xyz', getattr(a, e)[i].xyz):
                    c.ob('step %s: compensation of %s of body %d.%s stays zero' % (q.label, f, i, d), list(s.pc), same(lift(g), const(0)), run=q)
