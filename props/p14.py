"""P14: the additional effects superpose: each acts as if alone, and the totals are the sums of what the enabled effects give."""
import itertools
from engine.spec import *
from props.lib import *

ALL = ('tides', 'rotational_flattening', 'general_relativity', 'disk', 'wind')
TORQUE = ('tides', 'rotational_flattening', 'general_relativity', 'wind')
FORCE = ('tides', 'rotational_flattening', 'general_relativity', 'disk')

def check(c):
    std_assumptions(c)
    c.assume('heliocentric coordinates are those of the current inertial state (property P05)', 'an effect that is not considered still has the zero torques it was built with')
    c.set_signs(signs)
    subsets = [s for k in range(1, 6) for s in itertools.combinations(ALL, k)]
    for s in subsets: c.group('effects %s' % '+'.join(s), total, c, 3, s, 0, 0, True, True, 'Kidder1995')
    for n, h, mm in ((2, 0, 0), (2, 1, 1), (3, 2, 2), (4, 1, 1), (3, 0, 2), (3, 2, 0), (4, 1, 3)): c.group('all effects n=%d host=%d most massive=%d' % (n, h, mm), total, c, n, ALL, h, mm, True, True, 'Kidder1995')
    for h, mm, dh in ((1, 0, 0), (0, 1, 2), (0, 0, 1), (2, 1, 1)):
        for s in (ALL, ('tides', 'disk'), ('rotational_flattening', 'general_relativity', 'disk')): c.group('%s host=%d most massive=%d disk host=%d' % ('+'.join(s), h, mm, dh), total, c, 3, s, h, mm, True, True, 'Kidder1995', dh)
    for dl, acc in ((True, False), (False, True), (False, False)):
        for s in (ALL, ('wind',), ('general_relativity',), ('tides', 'wind'), ('rotational_flattening', 'disk'), ('disk',), ('tides', 'rotational_flattening')):
            c.group('%s, torques %s, accelerations %s' % ('+'.join(s), dl, acc), total, c, 3, s, 0, 0, dl, acc, 'Kidder1995')
    for s in (ALL, ('general_relativity',), ('general_relativity', 'disk')): c.group('%s with Anderson 1975' % '+'.join(s), total, c, 2, s, 0, 0, True, True, 'Anderson1975')
    c.group('all effects, n=10', total, c, 10, ALL, 0, 0, True, True, 'Kidder1995')

def signs(name):
    if name.endswith(('edge_distance', '.alpha', 'lifetime', 'mean_molecular_weight', 'surface_density_normalization')): return POS
    return esigns(name)

def run(c, label, n, effects, h, mm, dl, acc, impl, dh):
    roles = {e: (['Interaction'] * n if e == 'wind' else orbiting(n, mm if e == 'general_relativity' else dh if e == 'disk' else h)) for e in effects}
    ov = {}
    for i in range(n):
        P = 'u.particles[%d].' % i
        for w in ('CentralBody', 'OrbitingBody'):
            ov[P + 'tides.effect.%s.0.$' % w] = 'ConstantTimeLag'; ov[P + 'rotational_flattening.effect.%s.0.$' % w] = 'OblateSpheroid'
        for e in TORQUE:
            if e not in effects or e == 'general_relativity' and impl != 'Kidder1995':
                for k in 'xyz': ov[P + e + '.parameters.output.dangular_momentum_dt.' + k] = const(0)
    E = EffRun(c, label, n, roles, mm, dl=dl, acc=acc, ov=ov, gr_impl=impl if 'general_relativity' in effects else None)
    for i in range(n): E.r.assume(lt(const(0), dot(E.spin(i), E.spin(i))))
    if 'disk' in effects:
        # outside the inner edge (inside it there is no migration: P12)
        H = E.p(dh)
        for i in range(n):
            if i != dh: E.r.assume(lt(H.disk.effect.payload('CentralBody').inner_edge_distance, norm(E.pos('disk', i))))
    return E.go()

def total(c, n, effects, h, mm, dl, acc, impl, dh=None):
    dh = h if dh is None else dh
    L = '%s n=%d host=%d%s most massive=%d torques=%s accelerations=%s %s' % ('+'.join(effects), n, h, ' disk host=%d' % dh if dh != h else '', mm, dl, acc, impl if 'general_relativity' in effects else '')
    E = run(c, L, n, effects, h, mm, dl, acc, impl, dh)
    ones = {e: run(c, e + ' alone', n, (e,), h, mm, dl, acc, impl, dh) for e in effects} if len(effects) > 1 else {}
    torque = [e for e in effects if e in TORQUE and (e != 'general_relativity' or impl == 'Kidder1995')]
    def post(s, u):
        for i in range(n):
            p = u.particles[i]; old = E.p(i)
            o = {e: getattr(p, e).parameters.output for e in effects}
            for e, X in ones.items():
                for s1, _ in X.r.states():
                    a = getattr(X.r.post(s1, 'u').particles[i], e).parameters.output
                    if e in FORCE and acc: E.vec(s, 'acceleration of body %d by %s is that of %s alone' % (i, e, e), o[e].acceleration, a.acceleration.xyz)
                    if e in TORQUE and dl: E.vec(s, 'torque on body %d by %s is that of %s alone' % (i, e, e), o[e].dangular_momentum_dt, a.dangular_momentum_dt.xyz)
            t = (const(0),) * 3
            for e in effects:
                if e in FORCE: t = vadd(t, o[e].acceleration.xyz)
            E.vec(s, 'total acceleration of body %d' % i, p.inertial_additional_acceleration, t if acc else old.inertial_additional_acceleration.xyz)
            t = (const(0),) * 3
            for e in torque: t = vadd(t, o[e].dangular_momentum_dt.xyz)
            E.vec(s, 'total torque on body %d' % i, p.dangular_momentum_dt, t if dl and torque else old.dangular_momentum_dt.xyz)
            for f in ('inertial_position', 'inertial_velocity', 'inertial_acceleration', 'heliocentric_position', 'heliocentric_velocity', 'angular_momentum'):
                E.vec(s, '%s of body %d is unchanged' % (f, i), getattr(p, f), getattr(old, f).xyz)
            for f in ('mass', 'radius', 'moment_of_inertia'): E.num(s, '%s of body %d is unchanged' % (f, i), getattr(p, f), getattr(old, f), 'u.particles[%d].%s' % (i, f))
    E.each(post)
    E.r.returns_iff(True)
