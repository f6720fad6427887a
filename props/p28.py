"""P28: energy and angular momentum diagnostics."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.set_signs(usigns)
    for n in range(1, 11):
        c.group('energy n=%d' % n, energy, c, n)
        c.group('angular momentum n=%d' % n, angmom, c, n)
    from props import p07
    c.assume('the tidal state (forces, torques, coordinates) is that of the last evaluation of the effects')
    for n in (2, 3, 5, 10): c.group('tidal energy dissipation n=%d' % n, p07.denergy, c, n)

def energy(c, n):
    r = universe_run(c, 'particles::universe::Universe::compute_total_energy', 'n=%d' % n, n)
    r.args = [r.root('u', c.U)]
    r.go()
    p = r.pre('u').particles
    e = const(0)
    for i in range(n):
        e = e + p[i].mass * dot(p[i].heliocentric_velocity.xyz, p[i].heliocentric_velocity.xyz) / const(2)
        for j in range(i + 1, n):
            e = e - p[i].mass * p[j].mass_g / norm(vsub(p[i].heliocentric_position.xyz, p[j].heliocentric_position.xyz))
    r.ret(e); r.frame({}); r.returns_iff(True)

def angmom(c, n):
    r = universe_run(c, 'particles::universe::Universe::compute_total_angular_momentum', 'n=%d' % n, n)
    r.args = [r.root('u', c.U)]
    r.go()
    p = r.pre('u').particles
    L = (const(0),) * 3
    for i in range(n): L = vadd(L, vscale(p[i].mass, cross(p[i].heliocentric_position.xyz, p[i].heliocentric_velocity.xyz)))
    r.ret(norm(L)); r.frame({}); r.returns_iff(True)
