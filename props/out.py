"""Shared by the contracts of the output: one symbolic `iterate` with its records as ghost events."""
from engine.spec import *
from props.lib import *
from props.intg import *
from engine.stdm import ok, err
from engine.values import UNIT
from props.p17 import c_kepler, whov

PERIODS = {'LeapFrog': True, 'WHFast': True, 'Ias15': False}
def leaves(m, v, ty):
    """(code, value) of every number bincode writes for a value of this type; floats and integers have fixed widths"""
    t = m.types[ty]; v = force(v)
    if t['k'] == 'float': return [('d', v)]
    if t['k'] == 'int': return [({'i32': 'i', 'u32': 'I', 'u64': 'Q', 'usize': 'Q', 'i64': 'q', 'u8': 'B'}[t['n']], v)]
    if t['k'] == 'bool': return [('?', v)]
    if t['k'] == 'tuple': return [x for i, e in enumerate(t['es']) for x in leaves(m, vget(v, (i,)), e)]
    if t['k'] == 'array': return [x for i in range(t['len']) for x in leaves(m, vget(v, (i,)), t['e'])]
    if t['k'] == 'struct' and not isinstance(v, VecV) and v.__class__ is Agg: return [x for i, (_, e) in enumerate(t['vs'][0]['f']) for x in leaves(m, vget(v, (i,)), e)]
    if t['k'] == 'ref': raise Unsupported('reference inside a record')
    raise Unsupported('record of type ' + t['n'])

def c_serialize(c):
    """assumed contract of bincode::serialize_into: appends the numbers of the value, little endian and of fixed width, to the writer"""
    def h(ex, st, args, f, where):
        name = f['name']; i = name.index('serialize_into::<') + len('serialize_into::<')
        d = 0; parts = ['']
        for ch in name[i:-1]:
            if ch in '<([': d += 1
            if ch in '>)]': d -= 1
            if ch == ',' and d == 0: parts.append('')
            else: parts[-1] += ch
        tn = parts[-1].strip(); p = args[1]
        while tn.startswith('&'): tn = tn[1:].strip(); p = ex.load(st, p) if type(ex.load(st, p)) is Ptr else p
        if tn not in c.mir.tyname: raise Unsupported('record type ' + tn)
        for code, v in leaves(c.mir, ex.load(st, p), c.mir.tyname[tn]): ex.event(st, 'write', code, v)
        return [(st, ok(UNIT))]
    return {'posidonius::bincode::serialize_into': h}

def c_nothing(c, uty, n):
    """gravity and effects that leave the state alone (the schedule and the records do not depend on them)"""
    h = lambda ex, st, args, f, where: [(st, UNIT)]
    return {'posidonius::' + UN + 'gravity_calculate_acceleration': h, 'posidonius::' + UN + 'calculate_additional_effects': h}

def run_iterate(c, name, n, mm, label, tides=(), disk=False, extra=None, considered=()):
    """tides: one of None/'CentralBody:Model'/'OrbitingBody:Model' per body"""
    uty = c.mir.ty('particles::universe::Universe')
    K = dict(c_serialize(c), **c_nothing(c, uty, n))
    ov = {}
    if name == 'WHFast': K.update(c_kepler(c)); ov = whov(c, n, 'DemocraticHeliocentric')
    for k in [k for k in ov if 'snapshot' in k]: del ov[k]
    if name == 'Ias15':
        def step(ex, st, args, f, where):
            s = ex.load(st, args[0]); t = c.mir.ty(MOD['Ias15'])
            for p, v in (('current_time', var('s.current_time') + var('h.dt')), ('time_step', var('h.new_dt'))): s = vput(s, field_path(c.mir, t, p)[0], v)
            ex.store(st, args[0], s)
            return [(st, UNIT)]
        K['posidonius::' + MOD['Ias15'] + '::integrator'] = step
    ov.update(extra or {})
    for e in considered: ov['s.universe.consider_effects.' + e] = True
    for i, t in enumerate(tides):
        P = 's.universe.particles[%d].tides.effect' % i
        if t: ov[P + '.$'], m = t.split(':'); ov[P + '.%s.0.$' % ov[P + '.$']] = m
    R = IntRun(c, name, 'iterate', label, n, mm, ov=ov, contracts=K)
    R.r.no_replay = False
    return R
