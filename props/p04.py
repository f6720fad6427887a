"""P04: which effects are active, which body hosts them, and which configurations are rejected."""
from engine.spec import *
from props.lib import *
from props.p03 import pvec

EFF = ('tides', 'rotational_flattening', 'general_relativity', 'disk')

def check(c):
    std_assumptions(c)
    c.set_signs(usigns)
    for n in (1, 2, 3): c.group('effects without a host are switched off n=%d' % n, disable, c, n, None)
    for e in EFF + ('wind', 'evolution'):
        for n in (4, 6, 10): c.group('effects without a host are switched off n=%d %s' % (n, e), disable, c, n, e)
    for n in (1, 2): c.group('hosts n=%d' % n, hosts, c, n, None)
    for e in EFF:
        for n in (3, 5) if c.tier == 'quick' else (3, 5, 7): c.group('hosts n=%d %s' % (n, e), hosts, c, n, (e,))
    c.group('hosts n=3 tides+flattening', hosts, c, 3, ('tides', 'rotational_flattening'))
    for n in range(1, 11): c.group('most massive body n=%d' % n, hosts, c, n, ())
    c.group('uniform viscosity', viscosity, c)

def variant_is(c, enumv, name):
    t = c.mir.types[enumv._ty]
    k = [x['n'] for x in t['vs']].index(name)
    d = force(enumv._v).d
    return d == k if type(d) is int else ieq(d, k)
def is_central(c, p, e):
    eff = getattr(p, e).effect
    cen = variant_is(c, eff, 'CentralBody')
    if e == 'general_relativity' and cen is not False:
        return and_(cen, not_(variant_is(c, eff.payload('CentralBody'), 'Disabled')))
    return cen
def atmost1(cs): return and_(*[not_(and_(a, b)) for i, a in enumerate(cs) for b in cs[i+1:]])

def config(c, n, only):
    ov = {}
    for i in range(n):
        for e in EFF + ('wind',):
            if only is not None and e not in only: ov['p[%d].%s.effect.$' % (i, e)] = 'Disabled'
        if only is not None and 'evolution' not in only: ov['p[%d].evolution.$' % i] = 'NonEvolving'
    return ov

def disable(c, n, only):
    if only is None: sets = [(e,) for e in EFF + ('wind', 'evolution')]
    else: sets = [(only,)]
    for s in sets: _disable(c, n, s)
    if n == 2 and only is None:
        _disable(c, n, ('tides', 'disk', 'wind')); _disable(c, n, ('rotational_flattening', 'general_relativity', 'evolution'))

def _disable(c, n, only):
    r = Run(c, 'particles::universe::disable_unnecessary_effects', 'n=%d %s' % (n, '+'.join(only)), ov=config(c, n, only))
    v = pvec(c, r, n)
    ce = r.root('ce', c.mir.types[r.argty(0)]['e'])
    r.args = [ce, r.root('p', c.mir.types[r.argty(1)]['e'], v)]
    r.go()
    ps = [V(c.mir, v.f[i], c.PT) for i in range(n)]
    pre = r.pre('ce'); exp = {}; ok = True
    for e in EFF:
        cs = [is_central(c, p, e) for p in ps]
        exp['ce.' + e] = and_(getattr(pre, e), or_(*cs)); ok = and_(ok, atmost1(cs))
    exp['ce.wind'] = and_(pre.wind, or_(*[not_(variant_is(c, p.wind.effect, 'Disabled')) for p in ps]))
    exp['ce.evolution'] = and_(pre.evolution, or_(*[not_(variant_is(c, p.evolution, 'NonEvolving')) for p in ps]))
    r.frame(exp, roots=('ce', 'p'))
    r.returns_iff(ok, 'every effect has at most one central body')

def hosts(c, n, only):
    ov = config(c, n, only)
    for e in EFF:
        if only is not None and e not in only: ov['ce.' + e] = False
    r = Run(c, 'particles::universe::find_indices', 'n=%d %s' % (n, 'all effects' if only is None else '+'.join(only)), ov=ov)
    v = pvec(c, r, n)
    r.args = [r.root('p', c.mir.types[r.argty(0)]['e'], v), r.root('ce', c.mir.types[r.argty(1)]['e'])]
    ps = [V(c.mir, v.f[i], c.PT) for i in range(n)]
    # the function runs after unusable effects were switched off
    ce = r.pre('ce')
    cen = {e: [is_central(c, p, e) for p in ps] for e in EFF}
    for e in EFF: r.assume(implies(getattr(ce, e), or_(*cen[e])))
    def edges(p):
        if is_central(c, p, 'disk') is False: return False
        d = p.disk.effect.payload('CentralBody')
        return not_(and_(eq(d.inner_edge_distance, const(0)), eq(d.outer_edge_distance, const(0))))
    dcen = [and_(x, edges(p)) for x, p in zip(cen['disk'], ps)]
    r.go()
    heav = [and_(*([lt(ps[j].mass, ps[i].mass) for j in range(i)] + [not_(lt(ps[i].mass, ps[j].mass)) for j in range(i + 1, n)])) for i in range(n)]
    ok = True
    for e in EFF:
        cs = dcen if e == 'disk' else cen[e]
        ok = and_(ok, implies(getattr(ce, e), atmost1(cs)))
    ok = and_(ok, implies(ce.general_relativity, and_(*[iff(a, b) for a, b in zip(cen['general_relativity'], heav)])))
    ok = and_(ok, implies(and_(ce.tides, ce.rotational_flattening), and_(*[iff(a, b) for a, b in zip(cen['tides'], cen['rotational_flattening'])])))
    r.returns_iff(ok, 'each considered effect has one central body, the relativistic one is the most massive and tides and flattening share theirs')
    HT = r.F.locals[0]
    for s, val in r.states():
        h = V(c.mir, val, HT)
        pc = list(s.pc)
        def L(name, hy, g): c.ob('find_indices %s: %s' % (r.label, name), pc + hy, g, run=r)
        for i in range(n):
            L('most massive is %d' % i, [heav[i]], eqv(h.index.most_massive, i))
            for e in EFF:
                if only is not None and e not in only: continue
                x = dcen[i] if e == 'disk' else cen[e][i]
                if x is False: continue
                L('%s host is %d' % (e, i), [getattr(ce, e), x], eqv(getattr(h.index, e), i))
                L('%s host %d is known to be (or not) the most massive' % (e, i), [getattr(ce, e), x], iff(getattr(h.most_massive, e), heav[i]))
            if only is None or 'rotational_flattening' in only:
                L('shared tidal and flattening host %d' % i, [ce.rotational_flattening, cen['rotational_flattening'][i]], eqv(h.index.tides, i))
        if only is not None and len(only) == 1:
            L('single host flag', [getattr(ce, only[0])], iff(h.most_massive.all, getattr(h.most_massive, only[0])))
        elif only is None:
            L('single host flag', [], iff(h.most_massive.all, and_(*[implies(getattr(ce, e), getattr(h.most_massive, e)) for e in EFF])))

def viscosity(c):
    for tv in ('Disabled', 'CentralBody', 'OrbitingBody'):
        for fv in ('Disabled', 'CentralBody', 'OrbitingBody'):
            r = Run(c, 'particles::particle::Particle::check_uniform_viscosity_coefficient', '%s tides %s flattening' % (tv, fv), ov={'p.tides.effect.$': tv, 'p.rotational_flattening.effect.$': fv})
            r.args = [r.root('p', c.PT)]
            r.go()
            p = r.pre('p')
            if tv == 'Disabled' or fv == 'Disabled': ok = True
            else:
                t = p.tides.effect.payload(tv); f = p.rotational_flattening.effect.payload(fv)
                ct = variant_is(c, t, 'CreepCoplanar'); cf = variant_is(c, f, 'CreepCoplanar')
                d = fabs(t.payload('CreepCoplanar').uniform_viscosity_coefficient - f.payload('CreepCoplanar').uniform_viscosity_coefficient)
                ok = and_(iff(ct, cf), implies(and_(ct, cf), not_(lt(const_f(1e-16), d))))
            r.returns_iff(ok, 'creep tides and creep flattening come together with the same viscosity')
            r.frame({})
