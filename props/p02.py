"""P02: close encounters, collisions and ejections stop the run; Roche radii."""
from engine.spec import *
from props.lib import *

def check(c):
    std_assumptions(c)
    c.set_signs(usigns)
    c.samplers.append(sampler)
    for n in range(1, 11):
        c.group('calculate_roche_radiuses n=%d' % n, roche, c, n)
    for n in range(1, 11):
        for h in range(n):
            for ig in ('None', 'WHFastOne', 'WHFastTwo'):
                c.group('halting condition n=%d host=%d %s' % (n, h, ig), halts, c, n, h, ig)

def sampler(name, rng):
    if 'roche' in name: return rng.uniform(0, 1.5)
    if 'position' in name: return rng.choice([rng.uniform(-2, 2), rng.uniform(-90, 90)])
    if name.endswith('.radius'): return rng.uniform(0.01, 1)
    return None

def roche(c, n):
    r = universe_run(c, 'particles::universe::Universe::calculate_roche_radiuses', 'n=%d' % n, n, ov=None)
    r.args = [r.root('u', c.U)]
    r.go()
    u = r.pre('u'); exp = {}
    for i in range(n):
        for j in range(n):
            if i == j: continue
            a, b = u.particles[i], u.particles[j]
            def f(big, small): return small.radius / const_f(0.462) * powf(big.mass / small.mass, 1.0 / 3.0)
            exp['u.roche_radiuses[%d]' % (i * n + j)] = ite(lt(b.mass, a.mass), f(a, b), f(b, a))
    r.frame(exp)
    r.returns_iff(True)

def halts(c, n, h, ig):
    r = universe_run(c, 'particles::universe::Universe::gravity_calculate_acceleration', 'n=%d host=%d %s' % (n, h, ig), n, h)
    r.args = [r.root('u', c.U), ignore(c, ig)]
    r.go()
    u = r.pre('u')
    md = c.mir.const_f64('constants::MAX_DISTANCE')
    # pair by pair: the run stops on the pair's own condition, and goes on if no pair meets its condition
    conds = []
    for i in range(n):
        for j in range(i + 1, n):
            a, b = u.particles[i], u.particles[j]
            d = vsub(a.inertial_position.xyz, b.inertial_position.xyz); d2 = dot(d, d)
            rr = u.roche_radiuses[i * n + j]
            bad = [('destroyed inside the Roche radius', le(d2, rr * rr)), ('overlapping', le(d2, (a.radius + b.radius) * (a.radius + b.radius)))]
            if h in (i, j) and md > 0: bad.append(('ejected', lt(const_f(md * md), d2)))
            for w, x in bad: conds.append((i, j, w, x))
    ok = and_(*[not_(x) for _, _, _, x in conds])
    r.returns_iff(ok, 'no pair of bodies is inside its Roche radius or in contact and none is farther than the limit from the most massive one')
