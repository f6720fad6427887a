"""P15: evolving stellar and planetary quantities follow the tables of their model."""
from engine.spec import *
from props.lib import *
from engine.stdm import ok, err, It

EV = 'effects::evolution::Evolver'
METHODS = {
    'radius': ('GalletBolmont2017', 'BolmontMathis2016', 'Baraffe2015', 'Leconte2011', 'Baraffe1998', 'LeconteChabrier2013'),
    'radius_of_gyration_2': ('Baraffe2015', 'Leconte2011', 'LeconteChabrier2013'),
    'love_number': ('LeconteChabrier2013',),
    'inverse_tidal_q_factor': ('GalletBolmont2017', 'BolmontMathis2016', 'LeconteChabrier2013*'),
}
MODELS = ('GalletBolmont2017', 'BolmontMathis2016', 'Baraffe2015', 'Leconte2011', 'Baraffe1998', 'LeconteChabrier2013', 'LeconteChabrier2013*', 'NonEvolving')
def evolves(q, m): return m in METHODS[q] or (m.rstrip('*') in METHODS[q])

def check(c):
    std_assumptions(c)
    c.assume('the tables are sorted by strictly increasing time, all columns that the model provides have the length of the time column')
    c.set_signs(lambda name: POS if name.endswith('.radius_of_gyration_2') or re.search(r'\.radius(_of_gyration_2)?\[\d+\]$', name) else esigns(name))
    c.samplers.append(samp)
    deep = c.tier != 'quick'
    for n in (1, 2, 3, 5):
        for k in range(-1, n): c.group('linear interpolation, %d rows, interval %d' % (n, k), interp, c, n, k)
    # the search starts at most ten rows before the last known interval
    N = 24 if deep else 14
    for q in METHODS:
        for m in MODELS:
            for n, ls in ((3, (0, 1, 2)), (1, (0,))):
                for k in range(-1, n):
                    for L in ls: c.group('%s of %s, %d rows, interval %d, last known interval %d' % (q, m, n, k, L), method, c, q, m, n, k, L)
    for q, m in (('radius', 'Baraffe1998'), ('radius_of_gyration_2', 'Leconte2011'), ('love_number', 'LeconteChabrier2013'), ('inverse_tidal_q_factor', 'GalletBolmont2017')):
        for L in range(0, N):
            for k in range(max(-1 if L <= 10 else 0, L - 10), N):
                if deep or k in (L - 10, L - 1, L, L + 1, N - 1, -1): c.group('%s of %s, %d rows, interval %d, last known interval %d' % (q, m, N, k, L), method, c, q, m, N, k, L)
    # longer tables
    for q, m in (('radius', 'Baraffe1998'), ('inverse_tidal_q_factor', 'GalletBolmont2017')):
        for L in (15, 21, 28, 39) if deep else (21, 39):
            for k in (L - 10, L - 9, L - 3, L): c.group('%s of %s, %d rows, interval %d, last known interval %d' % (q, m, 40, k, L), method, c, q, m, 40, k, L)
    if any(f.endswith('Evolver::idx') for f in c.mir.byname): c.group('rows in front of the last known interval', window, c)
    for m in MODELS: c.group('all quantities of %s' % m, both, c, (m,), (1,), True)
    c.group('two evolving bodies', both, c, ('BolmontMathis2016', 'LeconteChabrier2013*'), (0, 1), True)
    c.group('two evolving bodies, one after its table', both, c, ('NonEvolving', 'Leconte2011', 'Baraffe2015'), (0, 2, 0), True)
    c.group('two evolving bodies, one before its table', both, c, ('GalletBolmont2017', 'NonEvolving', 'LeconteChabrier2013'), (-1, 0, 1), True)
    for t in ('CreepCoplanar', 'Kaula', 'Disabled'): c.group('love number of a body with %s tides' % t, both, c, ('LeconteChabrier2013*', 'LeconteChabrier2013'), (0, 1), True, t)
    c.group('quantities are kept when evolution is not requested', both, c, ('BolmontMathis2016', 'LeconteChabrier2013*'), (0, 1), False)
    c.group('quantities are kept when evolution is not considered', both, c, ('BolmontMathis2016', 'LeconteChabrier2013*'), (0, 1), True, 'ConstantTimeLag', False)
    for m, (ms, *_) in TABLES.items():
        for a in ms:
            c.group('table of %s, mass %s' % (m, a), newt, c, m, a)
        c.group('table of %s with a header' % m, newt, c, m, ms[0], 4, m != 'Leconte2011')
        for b in ('too young', 'too late'): c.group('table of %s, %s' % (m, b), newt, c, m, ms[-1], 4, False, b)
        if ms[0] is not None: c.group('masses of %s' % m, masses, c, m)

def samp(name, rng):
    m = re.match(r'x\d+_(-?\d+)_(-?\d+)$', name)
    if m: return Fraction((int(m.group(1)) - int(m.group(2))) * 100 + rng.randint(0, 9))
    if name == 'time': return Fraction(rng.randint(10, 99))

def table(i, n, k): return [var('x%d_%d_%d' % (i, j, k)) for j in range(n)]
def case(r, i, n, k):
    t = var('time'); x = table(i, n, k)
    for j in range(n): r.assume(not_(lt(t, x[j])) if j <= k else lt(t, x[j]))
    for j in range(n - 1): r.assume(lt(x[j], x[j + 1]))
def value(i, n, k, y):
    t = var('time'); x = table(i, n, k)
    if k < 0: return y[0]
    if k == n - 1: return y[n - 1]
    return y[k] + (y[k + 1] - y[k]) * (t - x[k]) / (x[k + 1] - x[k])
def cols(p, q, n): return [var('%s.%s[%d]' % (p, q, j)) for j in range(n)]

def interp(c, n, k):
    r = Run(c, 'tools::linear_interpolation', '%d rows, interval %d' % (n, k))
    f = c.mir.ty('f64')
    px = r.root('x', None, Agg(tuple(table(0, n, k)))); py = r.root('y', None, Agg(tuple(cols('e', 'y', n))))
    for w in 'xy': r.roots[w] = (r.roots[w][0], ('seq', f, n), r.roots[w][2])
    case(r, 0, n, k)
    r.args = [var('time'), Ptr(px.cell, (), (0, n)), Ptr(py.cell, (), (0, n))]
    r.go()
    for s, v in r.results: r._leaf(s, 'interpolated value', vget(v, (0,)), value(0, n, k, cols('e', 'y', n)))
    r.frame({}).returns_iff(True)

def evolver(p, i, m, n, k, L):
    """overrides for an evolver called p of model m with n rows"""
    def vec(f):
        v = VecV(tuple(f))
        return lambda ctx, nm, ty: v
    o = {p + '.evolution.$': m.rstrip('*'), p + '.left_index': L, p + '.evolution.LeconteChabrier2013.0': m.endswith('*')}
    o[p + '.time'] = vec(table(i, n, k) if m != 'NonEvolving' else ())
    for q in METHODS: o[p + '.' + q] = vec(cols(p, q, n) if evolves(q, m) and not (q == 'inverse_tidal_q_factor' and not m.endswith('*') and m == 'LeconteChabrier2013') else ())
    return o

def window(c):
    """at most the rows more than ten before the last known interval are left out, whatever its number"""
    L = var('left_index')
    r = Run(c, EV + '::idx', 'any last known interval', ov={'e.left_index': lambda ctx, nm, ty: L})
    e = r.root('e', c.mir.ty(EV))
    r.assume(le(const(0), L)); r.assume(lt(L, const(1 << 64)))
    r.args = [e]
    r.go()
    for s, v in r.results:
        v = v if isinstance(v, T) else const(v)
        c.ob('%s %s: no row within ten of it is left out' % (r.fname, r.label), list(s.pc), or_(eq(v, const(0)), le(v, L - 10)), info={'path': 'result', 'got': v, 'want': 'max(left_index - 10, 0)'}, run=r)
        c.ob('%s %s: it starts within the table' % (r.fname, r.label), list(s.pc), and_(le(const(0), v), le(v, L)), info={'path': 'result', 'got': v}, run=r)
    r.frame({}).returns_iff(True)

def has(q, m):
    if q == 'inverse_tidal_q_factor': return m in METHODS[q]
    return m.rstrip('*') in METHODS[q]

def method(c, q, m, n, k, L):
    r = Run(c, EV + '::' + q, '%s rows=%d interval=%d last known interval=%d' % (m, n, k, L), ov=evolver('e', 0, m, n, k, L))
    e = r.root('e', c.mir.ty(EV))
    case(r, 0, n, k)
    r.args = [e, var('time'), var('current')]
    r.go()
    want = value(0, n, k, cols('e', q, n)) if has(q, m) else var('current')
    r.ret(want, 'value')
    r.frame({}, free=[r'e\.left_index']).returns_iff(True)
    # whatever is remembered for the next call, it can only skip rows more than ten before the current one
    for s, _ in r.states():
        l = r.post(s, 'e').left_index
        c.ob('%s %s: the rows around the current time stay reachable' % (r.fname, r.label), list(s.pc), type(l) is int and 0 <= l < n and l <= max(k, 0) if has(q, m) else eqv(l, L), info={'path': 'e.left_index', 'got': l, 'want': max(k, 0)}, run=r)

def both(c, models, ks, evolution, tides='ConstantTimeLag', considered=True):
    on = evolution and considered
    R = any(has('radius', m) for m in models); G = any(has('radius_of_gyration_2', m) for m in models)
    for kr in (False, True) if on and R else (False,):
        for kg in (False, True) if on and G else (False,): both1(c, models, ks, evolution, tides, considered, kr, kg)

def both1(c, models, ks, evolution, tides, considered, keepr, keepg):
    """keepr, keepg: the interpolated values are the ones the bodies have already"""
    n = len(models); N = 3
    o = {'u.consider_effects.evolution': considered}
    for i, (m, k) in enumerate(zip(models, ks)):
        P = 'u.particles[%d].' % i
        o.update(evolver('u.particles_evolvers[%d]' % i, i, m, N, k, max(0, k)))
        o[P + 'evolution.$'] = m.rstrip('*'); o[P + 'evolution.LeconteChabrier2013.0'] = m.endswith('*')
        o[P + 'tides.effect.$'] = 'Disabled' if tides == 'Disabled' else 'CentralBody' if i == 0 else 'OrbitingBody'
        for w in ('CentralBody', 'OrbitingBody'): o[P + 'tides.effect.%s.0.$' % w] = tides if tides != 'Disabled' else 'ConstantTimeLag'
        for q, keep in (('radius', keepr), ('radius_of_gyration_2', keepg)):
            o[P + q] = value(i, N, k, cols('u.particles_evolvers[%d]' % i, q, N)) if keep and has(q, m) else var(P + q)
        o[P + 'moment_of_inertia'] = var(P + 'mass') * o[P + 'radius_of_gyration_2'] * o[P + 'radius'] ** 2
    et = c.mir.ty(EV)
    o['u.particles_evolvers'] = lambda ctx, nm, ty: VecV(tuple(ctx.mk('%s[%d]' % (nm, i), et) for i in range(n)))
    r = universe_run(c, 'particles::universe::Universe::calculate_spin_and_evolving_quantities', '+'.join(models) + ' intervals %s evolution=%s considered=%s %s tides%s%s' % (ks, evolution, considered, tides, ' same radius' if keepr else '', ' same radius of gyration' if keepg else ''), n, 0, ov=o)
    for i, k in enumerate(ks): case(r, i, N, k)
    for i in range(n):
        P = 'u.particles[%d].' % i
        for q, keep in (('radius', keepr), ('radius_of_gyration_2', keepg)):
            v = value(i, N, ks[i], cols('u.particles_evolvers[%d]' % i, q, N))
            if evolution and considered and has(q, models[i]):
                r.assume(lt(const(0), v))
                if not keep: r.assume(not_(eq(v, o[P + q])))
        # hence the moment of inertia is not zero
        if evolution and considered:
            R, g = [value(i, N, ks[i], cols('u.particles_evolvers[%d]' % i, q, N)) if has(q, models[i]) else o[P + q] for q in ('radius', 'radius_of_gyration_2')]
            r.assume(not_(eq(var(P + 'mass') * g * R * R, const(0))))
    r.args = [r.root('u', c.U), var('time'), evolution]
    r.go()
    D2 = const(c.mir.const_f64('constants::SUN_DYN_FREQ_2'))
    on = evolution and considered
    for s, _ in r.states():
        u = r.post(s, 'u')
        for i, (m, k) in enumerate(zip(models, ks)):
            P = 'u.particles[%d].' % i; p = u.particles[i]; old = r.pre('u').particles[i]; e = 'u.particles_evolvers[%d]' % i
            val = lambda q, cur: value(i, N, k, cols(e, q, N)) if on and has(q, m) else cur
            R, g = val('radius', old.radius), val('radius_of_gyration_2', old.radius_of_gyration_2)
            I = old.mass * g * R * R
            r._leaf(s, P + 'radius', p.radius, R); r._leaf(s, P + 'radius_of_gyration_2', p.radius_of_gyration_2, g)
            r._leaf(s, P + 'moment_of_inertia', p.moment_of_inertia, I)
            w = tuple(x / I for x in old.angular_momentum.xyz)
            for a, x in zip('xyz', w): r._leaf(s, P + 'spin.' + a, getattr(p.spin, a), x)
            r._leaf(s, P + 'norm_spin_vector_2', p.norm_spin_vector_2, dot(w, w))
            for a in 'xyz': r._leaf(s, P + 'angular_momentum.%s' % a, getattr(p.angular_momentum, a), getattr(old.angular_momentum, a))
            r._leaf(s, P + 'mass', p.mass, old.mass)
            if tides != 'Disabled':
                T_, T0 = [x.tides.effect.payload('CentralBody' if i == 0 else 'OrbitingBody') for x in (p, old)]
                if tides == 'ConstantTimeLag':
                    a, b = T_.payload(tides), T0.payload(tides)
                    W = P + 'tides.effect.%s.ConstantTimeLag.' % ('CentralBody' if i == 0 else 'OrbitingBody')
                    r._leaf(s, W + 'love_number', a.love_number, val('love_number', b.love_number))
                    r._leaf(s, W + 'dissipation_factor', a.dissipation_factor, b.dissipation_factor)
            lag = p.tides.parameters.internal.lag_angle
            if not on: want = old.tides.parameters.internal.lag_angle
            elif has('inverse_tidal_q_factor', m): want = const(3) * dot(w, w) / D2 * value(i, N, k, cols(e, 'inverse_tidal_q_factor', N)) / const(4)
            else: want = const(0)
            r._leaf(s, P + 'tides.parameters.internal.lag_angle', lag, want)
    r.frame({}, free=[r'u\.particles\[\d+\]\.(radius|radius_of_gyration_2|moment_of_inertia|spin\..*|norm_spin_vector_2|tides\.parameters\.internal\.lag_angle|tides\.effect\..*love_number)', r'u\.particles_evolvers\[\d+\]\.left_index'])
    r.returns_iff(True)

# ---------------------------------------------------------------- reading the tables
AU_M = 'constants::M2AU'; RSUN = 'constants::R_SUN'
TABLES = {  # model: (masses, file of a mass, time of a row, radius column and unit, other columns)
    'GalletBolmont2017': ([.3, .4, .6, .7, .8, .9, 1., 1.1, 1.2, 1.4], lambda m: 'Gallet_Bolmont_2017/M_%02d_Z_0134.dat' % round(m * 10), 'log', (3, RSUN), {'inverse_tidal_q_factor': (10, 'log')}),
    'BolmontMathis2016': ([.4, .5, .6, .7, .8, .9, 1., 1.1, 1.2, 1.3, 1.4, 1.5], lambda m: 'Bolmont_Mathis_2016/L%02dZ02r.dat' % round(m * 10), 'age', (1, RSUN), {'inverse_tidal_q_factor': (2, None)}),
    'Baraffe2015': ([.01, .015, .02, .03, .04, .05, .06, .07, .072, .075, .08, .09, .11, .13, .15, .17, .2, .3, .4, .5, .6, .7, .8, .9, 1., 1.1, 1.2, 1.3, 1.4], lambda m: 'Baraffe_2015/%04d_Msun.dat' % round(m * 1000), 'age', (2, RSUN), {'radius_of_gyration_2': (3, None)}),
    'Leconte2011': ([.01, .012, .015, .02, .03, .04, .05, .06, .07, .072, .075, .08], lambda m: 'Leconte_2011/mass_%.4f.dat' % (m * 1000), 'age', (1, RSUN), {}),
    'Baraffe1998': ([.1, 1.], lambda m: 'Baraffe_1998/' + ('01Msun.dat' if m < .5 else 'SRad_Spli_M-1_0000.dat'), 'age', (1, lambda m: RSUN if m < .5 else AU_M), {}),
    'LeconteChabrier2013': ([None], lambda m: 'Leconte_Chabrier_2013/Jupiter.dat', 'age', (1, AU_M), {'radius_of_gyration_2': (3, None), 'love_number': (2, None)}),
    'LeconteChabrier2013*': ([None], lambda m: 'Leconte_Chabrier_2013/Jupiter.dat', 'age', (1, AU_M), {'radius_of_gyration_2': (3, None), 'love_number': (2, None), 'inverse_tidal_q_factor': (5, None)}),
}
NCOL = 14
class Csv:
    """contract of the csv crate: a file is a list of rows of numbers; the first row is skipped if the reader takes it for headers"""
    def __init__(self, files): self.files = files; self.opened = []
    def table(self):
        def s(x): return x.s if type(x) is Str else None
        def ld(ex, st, v):
            while type(v) is Ptr: v = ex.load(st, v)
            return force(v)
        def new(ex, st, a, f, w): return [(st, Opq('csv', (True, 44, False)))]
        def opt(i):
            def g(ex, st, a, f, w):
                o = list(ld(ex, st, a[0]).info); o[i] = a[1]; ex.store(st, a[0], Opq('csv', tuple(o)))
                return [(st, a[0])]
            return g
        def frm(ex, st, a, f, w):
            name = s(ld(ex, st, a[1]))
            ex.event(st, 'open', name)
            if ld(ex, st, a[0]).info[1] != 32: raise Skip('the tables are not read as columns separated by spaces')
            return [(st, ok(Opq('reader', (name, ld(ex, st, a[0]).info))))]
        def records(ex, st, a, f, w):
            name, o = ld(ex, st, a[0]).info
            rows = self.files(name)
            if o[0] is True: rows = rows[1:]
            return [(st, It('vals', tuple(ok(Opq('record', r)) for r in rows), 0))]
        def index(ex, st, a, f, w):
            r = ld(ex, st, a[0])
            if type(r) is not Opq or r.tag != 'record': return NotImplemented
            if a[1] >= len(r.info): ex.panic(st, w, 'no such column'); return []
            return [(st, Ptr(ex.new_cell(st, Opq('text', r.info[a[1]]))))]
        def parse(ex, st, a, f, w):
            t = ld(ex, st, a[0])
            if type(t) is not Opq or t.tag != 'text': return NotImplemented
            return [(st, err(Opq('parse error')) if t.info is None else ok(t.info))]
        h = {'posidonius::csv::ReaderBuilder::new': new, 'posidonius::csv::ReaderBuilder::from_path': frm, 'posidonius::csv::Reader::<R>::records': records, 'std::ops::Index::index': index, 'core::str::<impl str>::parse': parse,
             'posidonius::math::round::half_up': lambda ex, st, a, f, w: [(st, fn('half_up%d' % a[1], a[0]))]}
        for i, n in enumerate(('has_headers', 'delimiter', 'flexible')): h['posidonius::csv::ReaderBuilder::' + n] = opt(i)
        return h

def raw(tag, n, header=False):
    return ([(None,) * NCOL] if header else []) + [tuple(var('%s[%d,%d]' % (tag, j, k)) for k in range(NCOL)) for j in range(n)]
def evo(c, m, mass):
    ty = c.mir.ty('effects::evolution::EvolutionType'); vs = [v['n'] for v in c.mir.types[ty]['vs']]; k = vs.index(m.rstrip('*'))
    return En(k, {k: () if m == 'NonEvolving' else (m.endswith('*') if mass is None else mass if isinstance(mass, T) else const_f(mass),)}, ty)
def evs(s): return [e.args[0] if hasattr(e, 'args') else e[1] for e in s.events]

def newt(c, m, mass, n=3, header=False, bad=None):
    masses, fname, tm, rad, others = TABLES[m]
    main = 'input/' + fname(mass)
    aux = m == 'Leconte2011'
    csv = Csv(lambda f: raw('main', n, header) if f == main else raw('aux', 3) if aux and f == 'input/Leconte_2011/rg2BD.dat' else raw('other', n))
    r = Run(c, EV + '::new', '%s mass=%s rows=%d%s%s' % (m, mass, n, ' with a header' if header else '', ' ' + bad if bad else ''), contracts=csv.table())
    t0, tl = var('initial_time'), var('time_limit')
    R = lambda j, k: var('main[%d,%d]' % (j, k)); A = lambda j, k: var('aux[%d,%d]' % (j, k))
    year = const_f(365.25)
    rows = list(range(n))
    if not header: r.assume(not_(lt(R(0, 0), const(0))))
    if aux:
        # the first and the last rows are outside the range of the auxiliary table
        for a, b in ((R(0, 0), A(0, 0)), (A(0, 0), R(1, 0)), (R(n - 2, 0), A(2, 0)), (A(2, 0), R(n - 1, 0)), (A(0, 0), A(1, 0)), (A(1, 0), A(2, 0)), (R(n - 2, 0), A(1, 0)) if n == 4 else (R(1, 0), A(1, 0))): r.assume(lt(a, b))
        for j in range(n - 1): r.assume(lt(R(j, 0), R(j + 1, 0)))
        for j in range(1, n - 1): r.assume(lt(A(0, 0), R(j, 0))); r.assume(lt(R(j, 0), A(1, 0)))
        for j in range(n): r.assume(lt(R(j, 0), A(2, 0)) if j < n - 1 else lt(A(2, 0), R(j, 0)))
        rows = rows[1:-1]
    age = lambda j: (powf(const(10), R(j, 0)) if tm == 'log' else R(j, 0)) * year - t0
    early, late = lt(const(0), age(rows[0])), lt(age(rows[-1]), tl)
    r.assume(early if bad == 'too young' else not_(early))
    r.assume(late if bad == 'too late' else not_(late))
    r.args = [evo(c, m, mass), t0, tl]
    r.go()
    unit = rad[1](mass) if callable(rad[1]) else rad[1]; unit = const(c.mir.const_f64(unit))
    want = {'time': [age(j) for j in rows], 'radius': [R(j, rad[0]) * unit for j in rows]}
    for q in METHODS:
        if q in others: want[q] = [R(j, others[q][0]) if others[q][1] is None else const(1) / powf(const(10), R(j, others[q][0])) for j in rows]
        elif q != 'radius': want[q] = []
    if aux:
        k = masses.index(mass) + 1
        want['radius_of_gyration_2'] = [fn('half_up7', A(0, k) + (A(1, k) - A(0, k)) * (R(j, 0) - A(0, 0)) / (A(1, 0) - A(0, 0))) for j in rows]
    for s, v in r.results:
        e = wrap(c.mir, v, c.mir.ty(EV), 'e')
        r._leaf(s, 'model', e.evolution._v, evo(c, m, mass))
        for q, w in want.items():
            got = force(vget(v, field_path(c.mir, c.mir.ty(EV), q)[0])).f
            c.ob('%s %s: rows of %s' % (r.fname, r.label, q), list(s.pc), len(got) == len(w), info={'path': q, 'got': len(got), 'want': len(w)}, run=r)
            for j, (g, x) in enumerate(zip(got, w)): r._leaf(s, '%s[%d]' % (q, j), g, x)
        c.ob('%s %s: the search starts at the first row' % (r.fname, r.label), list(s.pc), eqv(e.left_index, 0), run=r)
    r.returns_iff(bad is None, 'the simulated time is within the table')

def masses(c, m):
    """every accepted mass gets the table of a mass it agrees with"""
    ms, fname, _, _, _ = TABLES[m]
    x = var('mass'); near = {('input/' + fname(a)): a for a in ms}
    files = []
    def f(name): files.append(name); raise Stop
    class Stop(Exception): pass
    h = Csv(None).table()
    def frm(ex, st, a, g, w):
        v = a[1]
        while type(v) is Ptr: v = ex.load(st, v)
        files.append((list(st.pc), force(v).s)); return []
    h['posidonius::csv::ReaderBuilder::from_path'] = frm
    r = Run(c, EV + '::new', '%s any mass' % m, contracts=h); r.args = [evo(c, m, x), var('initial_time'), var('time_limit')]
    r.go()
    for pc, name in files:
        a = near.get(name); tol = Fraction(2, 1000) if a is not None and a > 0.25 else Fraction(2, 10000)
        c.ob('%s %s: %s is the table of that mass' % (r.fname, r.label, name), pc, False if a is None else and_(lt(const(Fraction(str(a)) - tol), x), lt(x, const(Fraction(str(a)) + tol))), info={'path': 'mass', 'got': name, 'want': a}, run=r)
    c.ob('%s %s: every mass of the model has its table' % (r.fname, r.label), [], set(n for _, n in files) == set(near), run=r)
