"""P06: spin follows angular momentum and moment of inertia."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.set_signs(usigns)
    for n in range(1, 11):
        c.group('calculate_spin_and_evolving_quantities n=%d' % n, spin, c, n)
    c.group('calculate_spin', direct, c)

def direct(c):
    for n in range(1, 5):
        r = Run(c, 'particles::common::calculate_spin', 'n=%d' % n)
        r.args = [r.seq('ps', c.PT, n)]
        ps = [V(c.mir, x, c.PT) for x in r.roots['ps'][2].f]
        r.go()
        exp = {}
        for i, p in enumerate(ps):
            s = vscale(const(1) / p.moment_of_inertia, p.angular_momentum.xyz)
            exp.update(axes('ps[%d].spin' % i, s)); exp['ps[%d].norm_spin_vector_2' % i] = dot(s, s)
        r.frame(exp)
        r.returns_iff(and_(*[not_(eq(p.moment_of_inertia, const(0))) for p in ps]), 'no moment of inertia is zero')

def spin(c, n):
    for evo in ((False, None), (True, False)):
        r = universe_run(c, 'particles::universe::Universe::calculate_spin_and_evolving_quantities', 'n=%d evolution=%s' % (n, evo), n, ov={} if evo[1] is None else {'u.consider_effects.evolution': evo[1]})
        r.args = [r.root('u', c.U), var('t'), evo[0]]
        r.go()
        u = r.pre('u'); exp = {}
        for i in range(n):
            p = u.particles[i]
            s = vscale(const(1) / p.moment_of_inertia, p.angular_momentum.xyz)
            exp.update(axes('u.particles[%d].spin' % i, s)); exp['u.particles[%d].norm_spin_vector_2' % i] = dot(s, s)
        r.frame(exp)
        r.returns_iff(and_(*[not_(eq(u.particles[i].moment_of_inertia, const(0))) for i in range(n)]), 'no moment of inertia is zero')
