"""P09: Kaula tides of bodies that spin in the plane of their orbits (Revol et al. 2023)."""
from engine.spec import *
from engine import prover as PR
from props.lib import *
import math
from math import comb, factorial

KA = 'posidonius::effects::tides::kaula::'
ELEM = 'posidonius::tools::calculate_keplerian_orbital_elements'
OBLI = 'posidonius::tools::calculate_inclination_orbital_equatorial_plane'
LOVE = KA + 'calculate_kaula_numbers'
COMP = {'radial': KA + 'calculate_radial_component_of_the_tidal_force', 'normal': KA + 'calculate_normal_component_of_the_tidal_force', 'orthogonal': KA + 'calculate_orthogonal_component_of_the_tidal_force'}
K, F = const, Fraction


def signs(n):
    if n in ('el.a', 'el.P') or n.endswith(('.mass', '.radius', '.mass_g', '.moment_of_inertia')) or n.startswith('orbit') and n.endswith(('.a', '.P')): return POS
    if n in ('el.e', 'obliquity', 'coarse'): return POS | ZER
    return ANY

def check(c):
    std_assumptions(c)
    c.assume('the obliquity is at most 1e-8, the limit of the coplanar formulae of the code (the formulae for larger obliquities are not under contract; the inclination and eccentricity functions they use are)',
             'the table of Love numbers is sorted by frequency and full: the code ignores the number of data points', 'the orbital elements of a pair are those of P25 (a contract on the conversion)')
    c.set_signs(signs)
    c.group('excitation frequency', frequency, c)
    c.group('phases', phase, c)
    for l, m in ((2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3)): c.group('inclination functions F_%d%dp' % (l, m), inclination, c, l, m)
    for f in ('2pq', '20q', '21q', '3pq'): c.group('eccentricity functions G_%s' % f, eccentricity, c, f)
    for central in (False, True):
        for neg in (False, True): c.group('Love number, %s, %s frequency' % ('star' if central else 'planet', 'negative' if neg else 'positive'), love, c, central, neg)
    for central in (False, True):
        for what in COMP:
            for e in ('circular',) + ORDERS: c.group('%s component, %s, %s' % (what, 'star' if central else 'planet', e if e == 'circular' else 'e in (%s, %s]' % tuple(e[:2])), component, c, what, central, e)
    c.group('the sums are those of the tidal potential', potential, c)
    for n in (2, 3, 4):
        for h, mm in placements(n):
            for star in ('Kaula', 'ConstantTimeLag'): c.group('bodies n=%d host=%d most massive=%d, %s star' % (n, h, mm, star), bodies, c, n, h, mm, star)
    c.group('body 1 without tides', bodies, c, 3, 0, 0, 'Kaula', (1,)); c.group('body 2 without tides', bodies, c, 3, 0, 0, 'Kaula', (2,))

# ---------------------------------------------------------------- Kaula's functions
def frequency(c):
    r = Run(c, KA + 'calculate_tidal_excitation_frequency_mode_sigma_2mpq', ''); r.auto_args(['m', 'p', 'q', 'spin', 'n']); r.go(); r.no_panic()
    m, p, q, w, n = [var(x) for x in ('m', 'p', 'q', 'spin', 'n')]
    r.ret((K(2) - K(2) * p + q) * n - m * w, 'frequency'); r.frame({}).returns_iff(True)
def phase(c):
    r = Run(c, KA + 'alpha_pqkj', ''); r.auto_args(['p', 'q', 'k', 'j', 'M', 'w']); r.go(); r.no_panic()
    p, q, k, j, M, w = [var(x) for x in ('p', 'q', 'k', 'j', 'M', 'w')]
    # v_2mpq = (2-2p) w + (2-2p+q) M + m (node - sidereal angle): the phase of mode kj less that of mode pq
    r.ret(((K(2) - K(2) * k) * w + (K(2) - K(2) * k + j) * M) - ((K(2) - K(2) * p) * w + (K(2) - K(2) * p + q) * M), 'phase'); r.frame({}).returns_iff(True)

def Flmp(l, m, p):
    """Kaula (1961), equation 23, as a polynomial {(power of sin i, power of cos i): coefficient}"""
    k = (l - m) // 2; R = {}
    for t in range(min(p, k) + 1):
        a = F(factorial(2 * l - 2 * t), factorial(t) * factorial(l - t) * factorial(l - m - 2 * t) * 2 ** (2 * l - 2 * t))
        for s in range(m + 1):
            for b in range(l - m - 2 * t + s + 1):
                if 0 <= p - t - b <= m - s:
                    R[l - m - 2 * t, s] = R.get((l - m - 2 * t, s), 0) + a * comb(m, s) * comb(l - m - 2 * t + s, b) * comb(m - s, p - t - b) * (-1) ** (b + k)
    return R
def pw(x, k):
    r = K(1)
    for _ in range(k): r = r * x
    return r
def inclination(c, l, m):
    nm = 'inclination_function_f_%d%dp' % (l, m)
    r = Run(c, KA + 'Polynomials::calculate_' + nm, ''); r.auto_args(['P', 'i']); r.go(); r.no_panic()
    S, C = fn('sin', var('i')), fn('cos', var('i')); h = [eq(S * S + C * C, K(1))]
    for st, _ in r.states():
        arr = getattr(r.post(st, 'P'), nm)
        c.ob('%s: %d values' % (nm, l + 1), [], len(arr) == l + 1)
        for p in range(l + 1):
            want = sum_(K(v) * pw(S, a) * pw(C, b) for (a, b), v in Flmp(l, m, p).items())
            # s^2 = 1 - c^2 turns both into polynomials of degree one in the sine
            c.ob('%s: F_%d%d%d(i)' % (nm, l, m, p), list(st.pc) + h, same(arr[p], want), info={'path': nm, 'got': arr[p], 'want': want}, run=r)
    r.frame({}, free=[r'P\.%s\[\d+\]' % nm]).returns_iff(True)

N = 7
def expansions():
    """e^{if} and a/r as Laurent polynomials in e^{iM}, to the seventh power of e"""
    def mul(A, B):
        R = {}
        for (a, i), x in A.items():
            for (b, j), y in B.items():
                if i + j <= N: R[a + b, i + j] = R.get((a + b, i + j), 0) + x * y
        return {k: v for k, v in R.items() if v}
    def gfun(P):       # 1 + e cos f
        g = {(0, 0): F(1)}
        for (k, i), v in P.items():
            if i < N:
                for s in (1, -1): g[s * k, i + 1] = g.get((s * k, i + 1), 0) + v / 2
        return {k: v for k, v in g.items() if v}
    pre = {}; t = F(1)
    for n in range(N // 2 + 1): pre[0, 2 * n] = t; t = t * (F(3, 2) + n) / (n + 1)
    P = {(1, 0): F(1)}
    for _ in range(N + 1):     # df/dM = (1 + e cos f)^2 (1-e^2)^(-3/2), integrated term by term until it stands
        g = gfun(P); rate = mul(mul(g, g), pre); W = {(k, i): v / k for (k, i), v in rate.items() if k}
        E = {(0, 0): F(1)}; term = dict(E)
        for n in range(1, N + 1):
            term = {k: v / n for k, v in mul(term, W).items()}
            for k, v in term.items(): E[k] = E.get(k, 0) + v
        P = {(k + 1, i): v for (k, i), v in E.items() if v}
    return P, mul(gfun(P), {(0, 2 * n): F(1) for n in range(N // 2 + 1)}), mul
_G = {}
def G(l):
    """G_lpq(e), the coefficient of exp i(l-2p+q)M in (a/r)^(l+1) exp i(l-2p)f"""
    if l in _G: return _G[l]
    P, ar, mul = expansions(); Q = {(-k, i): v for (k, i), v in P.items()}; out = {}
    for p in range(l + 1):
        A = {(0, 0): F(1)}; m = l - 2 * p
        for _ in range(l + 1): A = mul(A, ar)
        for _ in range(abs(m)): A = mul(A, P if m > 0 else Q)
        for q in range(-7, 8): out[p, q] = {i: v for (k, i), v in A.items() if k == m + q}
    _G[l] = out
    return out
EXACT = {(2, 1, 0): lambda e: fn('pow', K(1) - e * e, const_f(-1.5)), (3, 1, -1): lambda e: e * fn('pow', K(1) - e * e, const_f(-2.5)), (3, 2, 1): lambda e: e * fn('pow', K(1) - e * e, const_f(-2.5))}
def gval(l, p, q, e):
    if (l, p, q) in EXACT: return EXACT[l, p, q](e)
    return sum_(K(v) * pw(e, i) for i, v in sorted(G(l)[p, q].items()))
def eccentricity(c, f):
    nm = 'eccentricity_function_g_' + f; l = int(f[0])
    r = Run(c, KA + 'Polynomials::calculate_' + nm, ''); r.auto_args(['P', 'el.e'])
    r.assume(lt(var('el.e'), K(1))); r.go(); r.no_panic()
    for st, _ in r.states():
        arr = getattr(r.post(st, 'P'), nm)
        for p in range(l + 1) if f.endswith('pq') else (int(f[1]),):
            a = arr[p] if f.endswith('pq') else arr
            for q in range(-7, 8):
                want = gval(l, p, q, var('el.e')); c.ob('%s: G_%d,%d,%d(e)' % (nm, l, p, q), list(st.pc), same(a[q + 7], want), info={'path': nm, 'got': a[q + 7], 'want': want}, run=r)
    r.frame({}, free=[r'P\.%s(\[\d+\])+' % nm]).returns_iff(True)

# ---------------------------------------------------------------- the table of Love numbers
def love(c, central, neg):
    """every place a frequency can have in the table: before it, after it, on a row, between two rows"""
    n = 1024; F_ = c.mir.fn(LOVE)
    for found, i in [(0, 0), (0, n)] + [(1, j) for j in range(n)] + [(0, j) for j in range(1, n)]:
        r = Run(c, F_, '%s %s' % ('star' if central else 'planet', 'negative' if neg else 'positive')); r.fname = 'calculate_kaula_numbers'
        w = var('w'); r.auto_args(['w', 'K', central]); k = r.pre('K'); r.ex.bsearch_case = (found, i); r.no_replay = True
        f, re, im = k.love_number_excitation_frequency, k.real_part_love_number, k.imaginary_part_love_number
        if len(f) != n: raise Skip('a table of %d rows' % len(f))
        r.assume(lt(w, K(0)) if neg else le(K(0), w)); odd = neg and not central; x = -w if odd else w
        if found:
            r.assume(eq(x, f[i])); wr, wi, nm = re[i], im[i], 'on row %d' % i
            if i > 0: r.assume(lt(f[0], x))
            if i < n - 1: r.assume(lt(x, f[n - 1]))
        elif i == 0: r.assume(lt(x, f[0])); wr, wi, nm = re[0], im[0], 'before the table'
        elif i == n: r.assume(lt(f[n - 1], x)); r.assume(lt(f[0], x)); wr, wi, nm = re[n - 1], im[n - 1], 'after the table'
        else:
            r.assume(lt(f[i - 1], x)); r.assume(lt(x, f[i])); t = (x - f[i - 1]) / (f[i] - f[i - 1]); nm = 'between rows %d and %d' % (i - 1, i)
            if i > 1: r.assume(lt(f[0], x))
            if i < n - 1: r.assume(lt(x, f[n - 1]))
            wr = re[i - 1] + t * (re[i] - re[i - 1]); wi = im[i - 1] + t * (im[i] - im[i - 1])
        r.go(); r.no_panic()
        if not r.results: c.ob('%s %s: %s: there is a value' % (r.fname, r.label, nm), r.hyps, False, run=r)
        for st, v in r.states():
            r._leaf(st, nm + ', real part', vget(v, (0,)), -wr); r._leaf(st, nm + ', imaginary part', vget(v, (1,)), -wi if odd else wi)

# ---------------------------------------------------------------- the components of the force
ORDERS = ((F(0), F(1, 10), 2), (F(1, 10), F(3, 20), 3), (F(3, 20), F(1, 5), 4), (F(1, 5), F(1, 4), 5), (F(1, 4), F(3, 10), 6), (F(3, 10), F(1), 7))
ORDERS = tuple((float(a), float(b), o) for a, b, o in ORDERS)
G_FNS = {'20q': 'eccentricity_function_g_20q', '21q': 'eccentricity_function_g_21q'}
class Env:
    def __init__(self, c): self.c = c; self.obl = []; self.asked = []
    def obliquity(self, ex, st, a, fc, w):
        self.obl.append([lift(vget(ex.load(st, x) if type(x) is Ptr else x, (k,))) for x in a for k in range(3)]); return [(st, var('obliquity'))]
    def love(self, ex, st, a, fc, w):
        s = lift(a[0]); c = 1 if a[2] is True else 0 if a[2] is False else None
        if c is None: raise Skip('the kind of tide is not determined')
        return [(st, Agg((fn('re%d' % c, s), fn('im%d' % c, s))))]
    def gfun(self, nm):
        def h(ex, st, a, fc, w):
            path, _ = field_path(self.c.mir, self.c.mir.types[self.c.mir.fn(KA + 'Polynomials::calculate_' + nm).locals[1]]['e'], nm); self.asked.append(lift(a[1]))
            ex.store(st, Ptr(a[0].cell, a[0].path + tuple(path)), Agg(tuple(var('%s[%d]' % (nm[-3:], q - 7)) for q in range(15))))
            return [(st, Agg(()))]
        return h
    def contracts(self): return dict({OBLI: self.obliquity, LOVE: self.love}, **{KA + 'Polynomials::calculate_' + n: self.gfun(n) for n in G_FNS.values()})
def g2(m, q): return var('%s[%d]' % ('21q' if m == 0 else '20q', q))
EL = ('a', 'q', 'e', 'i', 'p', 'n', 'M', 'P')

def component(c, what, central, e):
    E = Env(c); r = Run(c, COMP[what], '%s %s' % ('star' if central else 'planet', e if e == 'circular' else 'e up to %s' % e[1]), contracts=E.contracts())
    ov = r.ov; me, other = 'p', 'h'
    for x, role in (('p', 'CentralBody' if central else 'OrbitingBody'), ('h', 'OrbitingBody' if central else 'CentralBody')):
        ov[x + '.tides.effect.$'] = role; ov[x + '.tides.effect.%s.0.$' % role] = 'Kaula'
    me = 'h' if central else 'p'
    ov[me + '.tides.parameters.internal.distance'] = norm(tuple(var('%s.tides.coordinates.position.%s' % (me, k)) for k in 'xyz'))
    r.ctx = type(r.ctx)(r.m, ov)
    ph, pp = r.root('h', c.PT), r.root('p', c.PT); h, p = r.pre('h'), r.pre('p')
    el = Agg(tuple(var('el.' + x) for x in EL)); r.args = [ph, pp, el, central]
    orb = (h if central else p).tides; d = orb.parameters.internal.distance; pos = orb.coordinates.position.xyz
    r.no_replay = True
    r.assume(lt(K(0), d)); r.assume(le(var('obliquity'), const_f(1e-8))); r.assume(lt(K(0), pos[0] * pos[0] + pos[1] * pos[1]))
    ec = var('el.e')
    if e == 'circular': r.assume(eq(ec, K(0)))
    else: r.assume(lt(const_f(e[0]), ec)); r.assume(le(ec, const_f(e[1])) if e[1] < 1 else lt(ec, K(1)))
    r.go(); r.no_panic()
    g, day = const_f(c.mir.const_f64('constants::G')), const_f(c.mir.const_f64('constants::DAY'))
    n = const_f(c.mir.const_f64('constants::TWO_PI')) / (var('el.P') * day); w = sqrt(p.norm_spin_vector_2) / day; C = 1 if central else 0; M = var('el.M')
    a6 = pw(var('el.a'), 6); R5 = pw(p.radius, 5); ff = -(g * h.mass * h.mass * R5) / (a6 * d)
    if central: ff = -ff
    rho = sqrt(pos[0] * pos[0] + pos[1] * pos[1])
    def kk(m, q): s = (K(2) + K(q)) * n - K(2) * w if m == 2 else K(q) * n; return fn('re%d' % C, s), fn('im%d' % C, s)
    o = 0 if e == 'circular' else e[2]
    gg = (lambda m, q: K(1)) if e == 'circular' else g2
    tot, sec = [], []
    for m, cr in ((0, F(3, 4)), (2, F(9, 4))) if what == 'radial' else ((2, F(3, 2)),) if what == 'orthogonal' else ():
        for q in range(-o, o + 1):
            re, im = kk(m, q)
            for j in range(-o, o + 1):
                cs, sn = (fn('cos', K(j - q) * M), fn('sin', K(j - q) * M)) if j != q else (K(1), K(0))
                t = re * cs - im * sn if what == 'radial' else re * sn + im * cs
                tot.append(K(cr) * gg(m, q) * gg(m, j) * t)
                if j == q: sec.append(K(cr) * gg(m, q) * gg(m, j) * (re if what == 'radial' else im))
    k = ff if what == 'radial' else ff * d / rho
    z = K(0)
    for st, v in r.states():
        r._leaf(st, 'force', vget(v, (0,)), k * sum_(tot) if tot else z); r._leaf(st, 'mean force', vget(v, (1,)), k * sum_(sec) if sec else z)
    vel = orb.coordinates.velocity.xyz
    c.ob('%s %s: the obliquity is that of the orbit to the equator of the deformed body' % (r.fname, r.label), [], bool(E.obl) and all(all(x is y or same(x, y) is True for x, y in zip(a, list(pos) + list(vel) + list(p.spin.xyz))) for a in E.obl))
    c.ob('%s %s: the eccentricity functions are those of the orbit' % (r.fname, r.label), [], all(x is ec for x in E.asked))
    r.frame({}, free=[r'p\.tides\.effect\.\w+\.0\.Kaula\.0\.polynomials\..*']).returns_iff(True)

def potential(c):
    """a body that responds at once (Love number k for every mode) pulls with 3 k times the equilibrium force, (a/r)^6, and does not twist; to the seventh power of e"""
    P, ar, mul = expansions(); a6 = {(0, 0): F(1)}
    for _ in range(6): a6 = mul(a6, ar)
    g = G(2)
    for p in (0, 1):
        S = {}
        for q in range(-7, 8):
            for j in range(-7, 8):
                for i, x in g[p, q].items():
                    for l, y in g[p, j].items():
                        if i + l <= N: S[j - q, i + l] = S.get((j - q, i + l), 0) + x * y
        c.ob('potential: sum of G_2%dq G_2%dj over q and j = (a/r)^6' % (p, p), [], {k: v for k, v in S.items() if v} == a6)

# ---------------------------------------------------------------- all bodies
class Calls:
    def __init__(self): self.orbits = []; self.comps = []
    def elem(self, ex, st, a, fc, w):
        a = [lift(a[0])] + [lift(vget(a[i], (k,))) for i in (1, 2) for k in range(3)]
        for k, b in enumerate(self.orbits):
            if all(p is q or p == q for p, q in zip(a, b)): break
        else: self.orbits.append(a); k = len(self.orbits) - 1
        return [(st, Agg(tuple(var('orbit%d.%s' % (k, s)) for s in EL)))]
    def comp(self, what):
        def h(ex, st, a, fc, w):
            key = (what, wrapm(ex, st, a[0]), wrapm(ex, st, a[1]), lift(vget(a[2], (0,))), a[3])
            for k, b in enumerate(self.comps):
                if all(p is q or p == q for p, q in zip(key, b)): break
            else: self.comps.append(key); k = len(self.comps) - 1
            return [(st, Agg((var('%s%d' % (what, k)), var('mean %s%d' % (what, k)))))]
        return h
    def contracts(self): return dict({ELEM: self.elem}, **{COMP[x]: self.comp(x) for x in COMP})

def bodies(c, n, h, mm, star, off=()):
    global wrapm
    C = Calls(); ro = orbiting(n, h, off); roles = {'tides': ro}; ov = {}
    mp, _ = field_path(c.mir, c.PT, 'mass')
    def wrapm(ex, st, p): return lift(ex.load(st, Ptr(p.cell, p.path + tuple(mp))))
    for i in range(n):
        P = 'u.particles[%d].tides.' % i
        ov[P + 'effect.CentralBody.0.$'] = star; ov[P + 'effect.OrbitingBody.0.$'] = 'Kaula'
        ov[P + 'parameters.internal.orthogonal_component_of_the_tidal_force_due_to_stellar_tide'] = K(0)
        if i == h and star != 'Kaula': ov[P + 'parameters.internal.scaled_dissipation_factor'] = K(0); ov[P + 'effect.CentralBody.0.ConstantTimeLag.0.love_number'] = K(0)
        for e in ('tides', 'rotational_flattening', 'general_relativity', 'wind', 'disk'):
            if e not in roles or ro[i] == 'Disabled':
                for k in 'xyz':
                    if e != 'disk': ov['u.particles[%d].%s.parameters.output.dangular_momentum_dt.%s' % (i, e, k)] = K(0)
                    if e != 'wind': ov['u.particles[%d].%s.parameters.output.acceleration.%s' % (i, e, k)] = K(0)
    E = EffRun(c, 'Kaula n=%d host=%d most massive=%d %s star off=%s' % (n, h, mm, star, off), n, roles, mm, ov=ov, contracts=C.contracts())
    E.r.no_replay = True
    pl = [i for i in range(n) if ro[i] == 'OrbitingBody']
    for i in pl:
        x = E.pos('tides', i); E.r.assume(lt(K(0), dot(x, x))); E.r.assume(not_(eq(norm(x), K(0)))); E.r.assume(lt(K(0), x[0] * x[0] + x[1] * x[1])); E.r.assume(not_(eq(sqrt(x[0] * x[0] + x[1] * x[1]), K(0))))
    E.go(); E.r.no_panic()
    L = E.r.label
    tides = [(i, False) for i in pl] + ([(i, True) for i in pl] if star == 'Kaula' else [])
    tab = {}
    for k, (what, m1, m2, a, ce) in enumerate(C.comps):
        q = [t for t in tides if t[1] is ce and (m1, m2) == ((E.p(t[0]).mass, E.p(h).mass) if ce else (E.p(h).mass, E.p(t[0]).mass)) and (what,) + t not in tab]
        c.ob('%s: %s component %d is that of a tide of the system' % (L, what, k), [], bool(q))
        if not q: continue
        t = q[0]; tab[(what,) + t] = k
        oi = [j for j in range(len(C.orbits)) if a is var('orbit%d.a' % j)]
        c.ob('%s: %s component of the tide of %d on %s: an orbit' % (L, what, t[0], 'the star' if t[1] else 'it'), [], bool(oi))
        if not oi: continue
        o = C.orbits[oi[0]]; nm = '%s: %s component of the tide of %d, %s: ' % (L, what, t[0], 'star' if t[1] else 'planet')
        gm = const_f(c.mir.const_f64('constants::G')) * (E.p(h).mass + E.p(t[0]).mass)
        c.ob(nm + 'mass of the orbit', [], same(o[0], gm))
        for j, (x, y) in enumerate(zip(o[1:], list(E.pos('tides', t[0])) + list(E.vel('tides', t[0])))): c.ob(nm + 'orbit ' + ('x', 'y', 'z', 'vx', 'vy', 'vz')[j], [], same(x, y))
    ok = all((w,) + t in tab for w in COMP for t in tides)
    c.ob('%s: the three components of every tide' % L, [], ok)
    if not ok: return
    def force(t, mean=False):
        x = E.pos('tides', t[0]); d = norm(x); rho = sqrt(x[0] * x[0] + x[1] * x[1]); ct, st = x[2] / d, rho / d; cp, sp = x[0] / rho, x[1] / rho
        R, T_, O = [var(('mean ' if mean else '') + '%s%d' % (w, tab[(w,) + t])) for w in ('radial', 'normal', 'orthogonal')]
        return (R * st * cp + T_ * ct * cp - O * sp, R * st * sp + T_ * ct * sp + O * cp, R * ct - T_ * st)
    def post(s, u):
        for i in range(n):
            acc = (K(0),) * 3; tor = (K(0),) * 3
            for t in tides:
                j, ce = t; f = force(t); x = E.pos('tides', j)
                if i == j: acc = vadd(acc, vscale((K(-1) if ce else K(1)) / E.p(j).mass, f))
                if i == h: acc = vadd(acc, vscale((K(1) if ce else K(-1)) / E.p(h).mass, f))
                if i == (h if ce else j): tor = vadd(tor, vscale(K(1) if ce else K(-1), cross(x, force(t, True))))
            E.vec(s, 'torque on body %d' % i, u.particles[i].dangular_momentum_dt, tor)
            E.vec(s, 'acceleration of body %d' % i, u.particles[i].inertial_additional_acceleration, acc)
    E.each(post)
