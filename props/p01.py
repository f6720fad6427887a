"""P01: Newtonian N-body gravity."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.set_signs(usigns)
    for n in range(1, 11):
        for h in ((0,) if n == 1 else (0, 1, n - 1) if c.tier == 'quick' else range(n)):
            c.group('gravity_calculate_acceleration n=%d host=%d' % (n, h), gravity, c, n, h)

def gravity(c, n, h):
    r = universe_run(c, 'particles::universe::Universe::gravity_calculate_acceleration', 'n=%d host=%d' % (n, h), n, h)
    r.args = [r.root('u', c.U), ignore(c, 'None')]
    r.go()
    u = r.pre('u')
    G = const(c.mir.const_f64('constants::G'))
    exp = {}
    for i in range(n):
        a = newton(u, n, i)
        exp.update(axes('u.particles[%d].inertial_acceleration' % i, a))
    r.frame(exp)
    # momentum is conserved: the forces on all particles add up to zero
    for s, _ in r.states():
        p = r.post(s, 'u').particles
        for k in 'xyz':
            tot = sum_((u.particles[i].mass * getattr(p[i].inertial_acceleration, k) for i in range(n)))
            if n <= 6 or c.tier != 'quick' or k == 'x':
                c.ob('gravity n=%d host=%d: sum of m*a is zero (%s)' % (n, h, k), list(s.pc), same(tot, const(0)), run=r)
