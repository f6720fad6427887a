"""P24: the command line and its changes to a resumed run do exactly what was asked."""
from engine.spec import *
from props.lib import *
from props.intg import *
from props.iom import *
from engine.stdm import ok, err, some, NONE
from engine.values import UNIT

def check(c):
    std_assumptions(c)
    c.assume('clap parses the command line according to the declared arguments (an undeclared or differently typed one aborts)', 'the clock is arbitrary')
    c.set_signs(lambda n: ANY)
    for n in MOD:
        for ev in ((0, False), (0, True), (1, True), (2, True), (3, True)): c.group('%s time limit %s' % (n, ev), limit, c, n, *ev)
        c.group('%s snapshot periods' % n, periods, c, n)
        c.group('%s initial values' % n, initial, c, n)
    lib = c.mir; c.mir = c.load_bin()
    try:
        for es in (False, True):
            for eh in (False, True): c.group('start, snapshot exists %s, history exists %s' % (es, eh), program, c, 'start', es, eh, {})
        for l in ('0', '1', '3600'): c.group('start with limit ' + l, program, c, 'start', False, False, {'limit': l})
        c.group('start silently', program, c, 'start', False, False, {'silent': True})
        c.group('start from an unreadable case', program, c, 'start', False, False, {}, False)
        c.group('resume an unreadable snapshot', program, c, 'resume', True, True, {}, False)
        o = {'historic-snapshot-period': 'hp', 'recovery-snapshot-period': 'rp', 'time-limit': 'tl'}
        for k in list(o) + [None]: c.group('resume with %s' % k, program, c, 'resume', True, True, {k: o[k]} if k else {})
        c.group('resume with everything', program, c, 'resume', True, True, dict(o, limit='3600', silent=True))
        c.group('resume without history', program, c, 'resume', True, False, dict(o))
    finally: c.mir = lib

# ---------------------------------------------------------------- changes to a resumed run
def limit(c, name, n, considered):
    L = 'n=%d evolution %s' % (n, 'considered' if considered else 'off')
    ov = {'s.universe.consider_effects.evolution': considered,
          's.universe.particles_evolvers': lambda ctx, nm, ty: VecV(tuple(ctx.mk('%s[%d]' % (nm, i), ctx.mir.types[ty]['args'][0]) for i in range(n)))}
    et = c.mir.ty('effects::evolution::EvolutionType') if c.mir.ty('effects::evolution::EvolutionType') is not None else None
    vs = [v['n'] for v in c.mir.types[et]['vs']]
    for i in range(n):
        ov['s.universe.particles_evolvers[%d].time' % i] = VecV(tuple(var('t%d_%d' % (i, k)) for k in range(i + 1)))
        ov['s.universe.particles_evolvers[%d].evolution.$' % i] = ivar('s.universe.particles_evolvers[%d].evolution.$' % i, range(len(vs)))
    tl = var('tl')
    R = IntRun(c, name, 'set_time_limit', L, 2, 0, ov=ov, args=lambda r, s: [s, tl]); R.go(); q = R.r
    old, t = var('s.universe.time_limit'), var('s.current_time')
    ev = [and_(not_(ieq(ivar('s.universe.particles_evolvers[%d].evolution.$' % i, range(len(vs))), vs.index('NonEvolving'))), lt(var('t%d_%d' % (i, i)), tl)) for i in range(n)]
    bad = and_(lt(const(0), tl), or_(and_(lt(old, tl), considered, or_(*ev) if ev else False), and_(lt(tl, old), lt(tl, t))))
    q.returns_iff(not_(bad), 'the new limit is within the evolution model and not in the past')
    if q.results: q.frame({'s.universe.time_limit': ite(lt(const(0), tl), tl, old)})

def periods(c, name):
    h, r = var('nh'), var('nr')
    R = IntRun(c, name, 'set_snapshot_periods', '', 2, 0, args=lambda _, s: [s, h, r]); R.go(); q = R.r
    q.frame({'s.historic_snapshot_period': ite(lt(const(0), h), h, var('s.historic_snapshot_period')), 's.recovery_snapshot_period': ite(lt(const(0), r), r, var('s.recovery_snapshot_period'))})
    q.returns_iff(True, 'never fails')

def initial(c, name):
    ov = {'s.universe.particles[%d].evolution.$' % i: 'NonEvolving' for i in range(3)}
    R = IntRun(c, name, 'initialize_physical_values', '', 3, 1, ov=ov, args=lambda _, s: [s]); q = R.r; t = var('s.current_time')
    S = R.sim(); S.u('calculate_spin_and_evolving_quantities', t, True); S.u('calculate_roche_radiuses')
    R.go()
    if not q.results: raise Skip('does not return')
    q.frame({'s.universe': vget(S.val(), S.path('universe')[0])})
    q.returns_iff(and_(eq(t, const(0)), *S.st.pc[len(q.hyps):]), 'the run has not started')

# ---------------------------------------------------------------- the program
NIT = 4
CASE, SNAP, HIST = 'case.json', 'snapshot.bin', 'history.bin'
FIELDS = {'index': 1, 'long': 1, 'short': 1, 'required': 1, 'action': 1, 'value_parser': 1, 'help': 1, 'value_name': 1}

def clap(facts):
    K = {}
    def text(ex, st, v):
        v = follow(ex, st, v)
        if type(v) is Str: return v.s
        if type(v) is int: return chr(v)
        raise Unsupported('text %r' % (v,))
    P = 'posidonius::clap::'
    def upd(v, **k): d = dict(v.info); d.update(k); return Opq(v.tag, d)
    K[P + 'Arg::new'] = lambda ex, st, a, f, w: [(st, Opq('arg', {'id': text(ex, st, a[0]), 'type': 'std::string::String'}))]
    for x in ('help', 'value_name', 'required', 'long_help', 'default_value', 'num_args'):
        K[P + 'Arg::' + x] = lambda ex, st, a, f, w: [(st, a[0])]
    def default(ex, st, a, f, w): return [(st, upd(a[0], default=text(ex, st, a[1])))]
    K[P + 'Arg::default_value'] = default
    K[P + 'Arg::index'] = lambda ex, st, a, f, w: [(st, upd(a[0], index=a[1]))]
    K[P + 'Arg::long'] = lambda ex, st, a, f, w: [(st, upd(a[0], long=text(ex, st, a[1])))]
    K[P + 'Arg::short'] = lambda ex, st, a, f, w: [(st, upd(a[0], short=text(ex, st, a[1])))]
    def action(ex, st, a, f, w):
        e = force(a[1]); t = ex.mir.types[e.ty] if e.ty is not None else None
        return [(st, upd(a[0], type='flag'))]
    K[P + 'Arg::action'] = action
    def parser(ex, st, a, f, w): return [(st, upd(a[0], type=a[1].info))]
    K[P + 'Arg::value_parser'] = parser
    K[P + 'builder::_AutoValueParser::<T>::new'] = lambda ex, st, a, f, w: [(st, Opq('parser', re.search(r'_AutoValueParser::<(.*)>::new', f['name']).group(1)))]
    for x in ('_ValueParserViaFactory', '_ValueParserViaParse', '_ValueParserViaSelf'):
        K[P + 'builder::via_prelude::%s::value_parser' % x] = lambda ex, st, a, f, w: [(st, Opq('parser', re.search(r'_AutoValueParser<(.*?)> as', f['name']).group(1)))]
    K[P + 'Command::new'] = lambda ex, st, a, f, w: [(st, Opq('cmd', {'name': text(ex, st, a[0]), 'args': (), 'subs': ()}))]
    for x in ('about', 'version', 'author', 'arg_required_else_help', 'subcommand_required', 'long_about'):
        K[P + 'Command::' + x] = lambda ex, st, a, f, w: [(st, a[0])]
    K[P + 'Command::arg'] = lambda ex, st, a, f, w: [(st, upd(a[0], args=a[0].info['args'] + (a[1].info,)))]
    K[P + 'Command::subcommand'] = lambda ex, st, a, f, w: [(st, upd(a[0], subs=a[0].info['subs'] + (a[1].info,)))]
    K[P + 'Command::get_matches'] = lambda ex, st, a, f, w: [(st, Opq('matches', a[0].info))]
    def sub(ex, st, a, f, w):
        m = follow(ex, st, a[0]).info
        for s in m['subs']:
            if s['name'] == facts['sub']:
                facts['args'] = s['args']
                return [(st, some(Agg((Str(s['name']), Ptr(ex.new_cell(st, Opq('matches', s)))))))]
        raise Skip('there is no sub-command ' + facts['sub'])
    K[P + 'ArgMatches::subcommand'] = sub
    def find(ex, st, a, w, ty):
        m = follow(ex, st, a[0]).info; i = text(ex, st, a[1])
        d = [x for x in m['args'] if x['id'] == i]
        if not d or d[0]['type'] != ty:
            ex.panic(st, w, 'option %s %s' % (i, 'is of another type' if d else 'is not declared')); return None, None
        d = d[0]
        if 'long' not in d and 'short' not in d:
            pos = [x for x in m['args'] if 'long' not in x and 'short' not in x]
            k = d['index'] - 1 if 'index' in d else pos.index(d)
            return d, facts['pos'][k] if k < len(facts['pos']) else None
        return d, facts['opt'].get(d.get('long'), d.get('default'))
    def one(ex, st, a, f, w):
        ty = re.search(r'get_one::<(.*)>$', f['name']).group(1)
        d, v = find(ex, st, a, w, ty)
        if d is None: return []
        if v is None: return [(st, NONE)]
        v = Str(v) if ty.endswith('String') else int(v) if ty in ('u64', 'u32', 'usize', 'i64') else var(v) if not v.replace('.', '').replace('-', '').isdigit() else const(float(v))
        return [(st, some(Ptr(ex.new_cell(st, v))))]
    K[P + 'ArgMatches::get_one'] = one
    def flag(ex, st, a, f, w):
        d, v = find(ex, st, a, w, 'flag')
        return [] if d is None else [(st, v is True)]
    K[P + 'ArgMatches::get_flag'] = flag
    return K

def program(c, sub, es, eh, opt, readable=True):
    L = '%s%s%s%s: ' % (sub, ''.join(' --' + k for k in opt), ' with existing snapshot' if es and sub == 'start' else '', ' with existing history' if eh and sub == 'start' else '')
    facts = {'sub': sub, 'pos': [CASE, SNAP, HIST] if sub == 'start' else [SNAP, HIST], 'opt': opt}
    K = fs({'exists': {CASE: True, SNAP: es, HIST: eh}, 'json': {}})
    K.update(clap(facts))
    I = 'posidonius::posidonius::Integrator::'; O = 'posidonius::posidonius::output::'
    nh, npart = 5, 3
    def restore(ex, st, a, f, w):
        ex.event(st, 'restore', key(ex, st, a[0]))
        return [(st, ok(Opq('integrator')) if readable else err(Opq('ioerror')))]
    K[O + 'restore_snapshot'] = restore
    K[I + 'get_n_historic_snapshots'] = lambda ex, st, a, f, w: [(st, nh)]
    K[I + 'get_n_particles'] = lambda ex, st, a, f, w: [(st, npart)]
    def ev(name, n):
        def h(ex, st, a, f, w): ex.event(st, name, *[(a[i] if type(a[i]) is not Ptr else key(ex, st, a[i])) for i in range(1, 1 + n)]); return [(st, UNIT)]
        return h
    K[I + 'set_snapshot_periods'] = ev('periods', 2); K[I + 'set_time_limit'] = ev('limit', 1)
    def hw(ex, st, a, f, w): ex.event(st, 'history', key(ex, st, a[0]), a[1]); return [(st, Opq('bufwriter', 'history writer'))]
    K[O + 'get_universe_history_writer'] = hw
    K[O + 'n_bytes_per_particle_in_historic_snapshot'] = lambda ex, st, a, f, w: [(st, 156)]
    def it(ex, st, a, f, w):
        k = sum(1 for e in st.trace if e.name == 'iterate')
        ex.event(st, 'iterate', key(ex, st, a[1]), a[2])
        if k == NIT: return [(st, err(Str('done')))]
        out = []
        for trig in (False, True):
            s = st.copy(); ex.event(s, 'asked', trig); out.append((s, ok(trig)))
        return out
    K[I + 'iterate'] = it
    def wr(ex, st, a, f, w): ex.event(st, 'snapshot', key(ex, st, a[1]), key(ex, st, a[2])); return [(st, UNIT)]
    K[I + 'write_recovery_snapshot'] = wr
    D = 'std::time::Duration::'
    K['std::time::Instant::now'] = lambda ex, st, a, f, w: [(st, Opq('instant'))]
    K['std::time::Instant::elapsed'] = lambda ex, st, a, f, w: [(st, Opq('elapsed'))]
    K[D + 'from_secs'] = lambda ex, st, a, f, w: [(st, Opq('duration', a[0]))]
    K[D + 'as_secs_f64'] = lambda ex, st, a, f, w: [(st, var('secs'))]
    K[D + 'is_zero'] = lambda ex, st, a, f, w: [(st, follow(ex, st, a[0]).info == 0)]
    def secs(ex, st, a, f, w):
        d = follow(ex, st, a[0])
        if d.tag != 'duration': raise Unsupported('seconds of a clock reading')
        return [(st, d.info)]
    K[D + 'as_secs'] = secs
    def span(v):
        if type(v) is Opq: return v.info if v.tag == 'duration' else None
        n = 0
        while isinstance(v, Agg) and v.f:
            if len(v.f) > 1 and force(v.f[1]) != 0 and not (isinstance(force(v.f[1]), Agg) and force(v.f[1]).f and force(force(v.f[1]).f[0]) == 0): return None
            v = force(v.f[0]); n += 1
        return v if n and type(v) is int else None
    def cmp(op):
        def h(ex, st, a, f, w):
            x, y = follow(ex, st, a[0]), follow(ex, st, a[1])
            dx, dy = span(x), span(y)
            if dx is not None and dy is not None: return [(st, {'ge': dx >= dy, 'gt': dx > dy, 'le': dx <= dy, 'lt': dx < dy, 'eq': dx == dy, 'ne': dx != dy}[op])]
            if op in ('eq', 'ne'): return NotImplemented
            if type(y) is not Opq and dy is not None: y = Opq('duration', dy)
            if type(x) is not Opq and dx is not None: x = Opq('duration', dx)
            want = op in ('ge', 'gt')
            if type(x) is not Opq or type(y) is not Opq or {x.tag, y.tag} != {'elapsed', 'duration'}: return NotImplemented
            out = []
            for e in (False, True):     # the limit has been reached, or not
                s = st.copy(); ex.event(s, 'reached', e, (y if x.tag == 'elapsed' else x).info); out.append((s, e == (want == (x.tag == 'elapsed'))))
            return out
        return h
    for o in ('ge', 'gt', 'le', 'lt'): K['std::cmp::PartialOrd::' + o] = cmp(o)
    for o in ('eq', 'ne'): K['std::cmp::PartialEq::' + o] = cmp(o)
    r = Run(c, 'posidonius::main', '', contracts=K)
    r.go()
    refuse = not readable or sub == 'start' and (es or eh)
    if refuse:
        # the refusal happens before any file is touched
        c.ob(L + 'refused', [], not r.results, run=r)
        for p in r.ex.panics: c.ob(L + 'nothing is written before the refusal', list(p.pc), not any(e.name in ('history', 'snapshot', 'iterate') for e in getattr(p, 'trace', ())), run=r)
        return
    c.ob(L + 'runs', [], bool(r.results) and not r.ex.panics, run=r)
    lim = int(opt.get('limit', 0))
    for s, v in r.states():
        t = list(s.trace); h = list(s.pc); names = [e.name for e in t]
        def want(what, g): c.ob(L + what, h, g, run=r)
        first = names.index('iterate') if 'iterate' in names else len(t)
        want('the case is restored', [e.args[0] for e in t if e.name == 'restore'] == [CASE if sub == 'start' else SNAP])
        for nm, keys in (('periods', ('historic-snapshot-period', 'recovery-snapshot-period')), ('limit', ('time-limit',))):
            e = [x for x in t[:first] if x.name == nm]
            late = [x for x in t[first:] if x.name == nm]
            want('no change of %s during the run' % nm, not late)
            for k, o in enumerate(keys):
                if o in opt: want('--%s is applied' % o, and_(bool(e), *[eqv(x.args[k], var(opt[o])) for x in e]))
                else: want('%s is kept' % o, all(type(x.args[k]) is T and x.args[k].op == 'c' and x.args[k].a[0] <= 0 for x in e))
        hi = [e for e in t if e.name == 'history']
        want('the history file is opened once, before the run, at the saved records', len(hi) == 1 and t.index(hi[0]) < first and hi[0].args[0] == HIST and type(hi[0].args[1]) is int and hi[0].args[1] == nh * npart * 156)
        want('silent as asked', all(e.args == ('history writer', opt.get('silent', False)) for e in t if e.name == 'iterate'))
        # the loop: one verdict per iteration
        k = first; good = True; stop = None; n = 0
        while k < len(t):
            if t[k].name != 'iterate' or stop: good = False; break
            n += 1; k += 1
            if n == NIT + 1: stop = 'end'; break
            asked = t[k].args[0]; k += 1
            reached = [x for x in _upto(t, k) if x.name == 'reached']; snaps = [x for x in _upto(t, k) if x.name == 'snapshot']
            if any(x.args[1] != lim for x in reached): good = False
            over = any(x.args[0] for x in reached)
            if lim == 0 and over: over = None          # without a limit the clock must not matter
            if lim and not reached: good = False
            w = 1 if (asked or over) else 0
            if len(snaps) != w or any(x.args != (SNAP, 'history writer') for x in snaps): good = False
            k += len(_upto(t, k))
            if over: stop = 'limit'
        want('snapshots are written exactly when asked or when the execution time is over, and the run ends exactly then or when it is complete', good and stop is not None and k >= len(t) - (1 if stop == 'end' else 0))

def _upto(t, k):
    out = []
    while k < len(t) and t[k].name != 'iterate': out.append(t[k]); k += 1
    return out
