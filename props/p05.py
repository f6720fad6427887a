"""P05: heliocentric state derived from the inertial one."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.set_signs(usigns)
    for n in range(1, 11):
        for h in range(n): c.group('inertial_to_heliocentric n=%d host=%d' % (n, h), helio, c, n, h)

def rel(u, i, h):
    x = vsub(u.particles[i].inertial_position.xyz, u.particles[h].inertial_position.xyz)
    v = vsub(u.particles[i].inertial_velocity.xyz, u.particles[h].inertial_velocity.xyz)
    return x, v

def helio(c, n, h):
    r = universe_run(c, 'particles::universe::Universe::inertial_to_heliocentric', 'n=%d host=%d' % (n, h), n, h)
    r.args = [r.root('u', c.U)]
    r.go()
    u = r.pre('u'); exp = {}
    for i in range(n):
        p = 'u.particles[%d].heliocentric_' % i
        x, v = rel(u, i, h)
        if i == h: x = v = (const(0),) * 3
        exp.update(axes(p + 'position', x)); exp.update(axes(p + 'velocity', v))
        d = norm(x) if i != h else const(0)
        exp[p + 'distance'] = d
        exp[p + 'radial_velocity'] = dot(x, v) / d if i != h else const(0)
        exp[p + 'norm_velocity_vector_2'] = dot(v, v) if i != h else const(0)
        exp[p + 'norm_velocity_vector'] = norm(v) if i != h else const(0)
    r.frame(exp, free=[r'u\.particles\[(%s)\]\.heliocentric_.*' % '|'.join(str(i) for i in range(n, 10))] if n < 10 else [])
    r.returns_iff(True)
