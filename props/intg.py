"""Shared by the contracts of the integrators: a symbolic integrator, and the specification's own use of the code's
gravity, coordinate and effect functions (each under its own contract: P01, P05, P07-P14)."""
from engine.spec import *
from props.lib import *

MOD = {'LeapFrog': 'integrator::leapfrog::LeapFrog', 'WHFast': 'integrator::whfast::WHFast', 'Ias15': 'integrator::ias15::Ias15'}
UN = 'particles::universe::Universe::'
def method(name, m): return '<posidonius::%s as posidonius::integrator::Integrator>::%s' % (MOD[name], m)

def isigns(name):
    if name.endswith(('.mass', '.radius', '.mass_g', '.moment_of_inertia', '.time_step', 'edge_distance', '.alpha', 'lifetime', 'mean_molecular_weight', 'surface_density_normalization', '_snapshot_period')): return POS
    return ANY

def uov(P, n, mm, effects=(), roles=None):
    """overrides: universe at path P with n bodies, the given effects on ('disk' hosted by mm, 'wind' on every body)"""
    o = {P.rsplit('.', 2)[0] + '.current_iteration': 7, P.rsplit('.', 2)[0] + '.n_historic_snapshots': 3, P + 'n_particles': n, P + 'hosts.index.most_massive': mm}
    for e in EFFECTS: o[P + 'consider_effects.' + e] = e in effects
    for e in ('tides', 'rotational_flattening', 'general_relativity', 'disk'):
        o[P + 'hosts.index.' + e] = mm if e in effects else 11
        o[P + 'hosts.most_massive.' + e] = e in effects
    o[P + 'hosts.most_massive.all'] = True
    o[P + 'general_relativity_implementation.$'] = 'Disabled'
    o[P + 'pair_dependent_scaled_dissipation_factor'] = MapV({})
    for i in range(10): o[P + 'particles[%d].id' % i] = i
    for i in range(n):
        Q = P + 'particles[%d].' % i
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'disk'):
            o[Q + e + '.effect.$'] = 'Disabled' if e not in effects else 'CentralBody' if i == mm else 'OrbitingBody'
        o[Q + 'wind.effect.$'] = 'Interaction' if 'wind' in effects else 'Disabled'
        o[Q + 'evolution.$'] = 'NonEvolving'
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'wind'):
            for k in 'xyz':
                if not (e == 'wind' and 'wind' in effects): o[Q + e + '.parameters.output.dangular_momentum_dt.' + k] = const(0)
    return o

class IntRun:
    def __init__(self, c, name, m, label, n, mm, effects=(), ov=None, silent=True, contracts=None, args=None):
        self.c = c; self.n = n; self.mm = mm; self.name = name
        o = uov('s.universe.', n, mm, effects)
        o.update({'s.half_time_step': var('s.time_step') * const_f(0.5)} if name != 'Ias15' else {})
        o.update(ov or {})
        self.ty = c.mir.ty(MOD[name])
        self.r = r = Run(c, method(name, m) if m in ('iterate', 'set_time_limit', 'set_snapshot_periods', 'initialize_physical_values', 'write_recovery_snapshot') else MOD[name] + '::' + m, label, ov=o, contracts=contracts)
        s = r.root('s', self.ty)
        self.ucell = s
        r.args = args(r, s) if args else [s, Opq('writer'), silent]
        self.st0 = r.st.copy()
    def go(self): self.r.go(); return self
    def sim(self): return Sim(self)

class Sim:
    """the state the specification computes: assignments of the specification and calls of the code's own physics"""
    def __init__(self, R):
        self.R = R; self.r = R.r; self.m = R.c.mir; self.cell = R.r.roots['s'][0]
        self.st = R.st0.copy(); self.hist = []
        self.n = R.n
    def path(self, p): return field_path(self.m, self.R.ty, p)
    def get(self, p):
        path, ty = self.path(p)
        return wrap(self.m, vget(self.st.cells[self.cell], path), ty, 's.' + p)
    def set(self, p, v):
        path, ty = self.path(p)
        if isinstance(v, tuple):
            for k, x in zip('xyz', v): self.set(p + '.' + k, x)
            return
        self.st.cells[self.cell] = vput(self.st.cells[self.cell], path, v)
    def p(self, i): return self.get('universe.particles[%d]' % i)
    def pset(self, i, f, v): self.set('universe.particles[%d].%s' % (i, f), v)
    def u(self, fn, *args):
        """call a method of the universe"""
        F = self.m.fn(UN + fn)
        if F is None: raise Skip('function %s not found' % fn)
        path, ty = self.path('universe')
        rs = self.r.ex.call_fn(self.st, F, [Ptr(self.cell, path)] + list(args))
        if not rs: raise Skip('%s does not return on the specified state' % fn)
        if len(rs) > 1: raise Skip('%s returns on %d separate paths' % (fn, len(rs)))
        self.st = rs[0][0]
        return rs[0][1]
    def gravity(self, ign='None'): self.u('gravity_calculate_acceleration', ignore(self.R.c, ign))
    def helio(self): self.u('inertial_to_heliocentric')
    def effects(self, time, evolution, dl, acc, ign='None'): self.u('calculate_additional_effects', time, evolution, dl, acc, ignore(self.R.c, ign))
    def val(self): return self.st.cells[self.cell]

# ---------------------------------------------------------------- the effects as uninterpreted functions of the state
PHYS = ('inertial_position', 'inertial_velocity', 'heliocentric_position', 'heliocentric_velocity', 'angular_momentum')
SCAL = ('mass', 'radius', 'moment_of_inertia')
def uf_effects(c, uty, n, evolving=False, log=None):
    """contract of Universe::calculate_additional_effects that leaves the forces open: acceleration and torque of every body are
    uninterpreted functions of time, coordinates (inertial and heliocentric), angular momenta and physical parameters of all bodies"""
    def body(v, p): return vget(v, field_path(c.mir, uty, p)[0])
    def h(ex, st, args, f, where):
        u, time, evol, dl, acc, ign = args
        if log is not None: log.append((st, time, evol, dl, acc))
        for b in (evol, dl, acc):
            if type(b) is not bool: raise Unsupported('symbolic effect switch')
        v = ex.load(st, u)
        def put(p, x):
            nonlocal v
            v = vput(v, field_path(c.mir, uty, p)[0], x)
        if evol and evolving:
            for i in range(n):
                for q in ('radius', 'moment_of_inertia'):
                    put('particles[%d].%s' % (i, q), fn('evolved_%s_%d' % (q, i), lift(time)))
        a = [lift(time)] + [lift(body(v, 'particles[%d].%s.%s' % (i, q, k))) for i in range(n) for q in PHYS for k in 'xyz'] + [lift(body(v, 'particles[%d].%s' % (i, q))) for i in range(n) for q in SCAL]
        for i in range(n):
            for k in 'xyz':
                if acc: put('particles[%d].inertial_additional_acceleration.%s' % (i, k), fn('effect_a%d%s' % (i, k), *a))
                if dl: put('particles[%d].dangular_momentum_dt.%s' % (i, k), fn('effect_L%d%s' % (i, k), *a))
        ex.store(st, u, v)
        return [(st, UNIT)]
    return {'posidonius::' + UN + 'calculate_additional_effects': h}
