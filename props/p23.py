"""P23: recovery snapshots are complete and a resumed run continues from exactly the saved state."""
from engine.spec import *
from props.lib import *
from props.intg import *
from props.snap import *
from props.iom import *

def check(c):
    std_assumptions(c)
    c.assume('serde and bincode encode numbers and booleans without loss')
    c.set_signs(lambda n: ANY)
    ts = []
    for n in MOD: components(c.mir, c.mir.ty(MOD[n]), ts)
    for ty in ts:
        if not local(c.mir, ty): continue
        t = c.mir.types[ty]
        for v in (range(len(t['vs'])) if t['k'] == 'enum' else (None,)):
            c.group('round trip %s %s' % (t['n'], v if v is not None else ''), roundtrip, c, ty, v, OV.get(t['n'].rsplit('::', 1)[-1]))
    _more(c)
    c.group('history file of a resumed run', history, c)
    for kind in MOD:
        for json in (False, True): c.group('restore %s %s' % (kind, json), restore, c, kind, json, True)
    c.group('restore a missing file', restore, c, 'WHFast', False, False)

f3 = lambda p: VecV(tuple(var('%s[%d]' % (p, i)) for i in range(3)))
OV = {'Universe': {'x.pair_dependent_scaled_dissipation_factor': MapV({1: var('m1'), 4: var('m4')}), 'x.particles_evolvers': lambda ctx, n, ty: VecV(tuple(ctx.mk('%s[%d]' % (n, i), ctx.mir.types[ty]['args'][0]) for i in range(2)))},
      'Evolver': {'x.' + k: f3('x.' + k) for k in ('time', 'radius', 'radius_of_gyration_2', 'love_number', 'inverse_tidal_q_factor')}}

# ---------------------------------------------------------------- writing a recovery snapshot
def _more(c):
    for name in MOD:
        for exists in (False, True):
            for json in (False, True): c.group('%s writes a snapshot (%s, %s)' % (name, 'replacing one' if exists else 'the first', 'json' if json else 'bin'), write, c, name, exists, json)

def write(c, name, exists, json):
    L = '%s write snapshot (%s, %s): ' % (name, 'replacing' if exists else 'first', 'json' if json else 'bin')
    K = fs({'exists': {'snap': exists}, 'json': {'snap': json}})
    R = IntRun(c, name, 'write_recovery_snapshot', L, 2, 0, contracts=K, args=lambda r, s: [s, Opq('path', 'snap'), Opq('bufwriter', 'history')])
    R.go(); q = R.r
    if not q.results: raise Skip('the snapshot function does not return')
    ioall = [ivar('io%d' % (i + 1), (0, 1)) for i in range(getattr(q.ex, 'nio', 0))]
    for s, v in q.states():
        c.ob(L + 'returns only after every file operation has succeeded', list(s.pc), and_(*[ieq(i, 0) for i in ioall]), run=q)
        files = {'snap': 'old'} if exists else {}
        hist = False; a = q.post(s, 's'); final = None; lost = False; early = False; partial = False
        for e in s.trace:
            if e.guard is not True: raise Unsupported('conditional file operation')
            if e.name == 'flush':
                if e.args[0] == 'history': hist = True
                elif files.get(e.args[0], '').startswith('data'): files[e.args[0]] = 'new'
            elif e.name == 'create': files[e.args[0]] = 'empty'
            elif e.name in ('all', 'some'):
                if e.args[0] == 'history': continue
                if e.name == 'some': files[e.args[0]] = 'part'; partial = True
                else:
                    files[e.args[0]] = 'data' if files.get(e.args[0]) == 'empty' else 'part'; final = e.args[1]
                    if not hist: early = True
            elif e.name == 'rename':
                if e.args[0] in files: files[e.args[1]] = files.pop(e.args[0])
            elif e.name == 'copy':
                if e.args[0] in files: files[e.args[1]] = files[e.args[0]]
            elif e.name == 'remove': files.pop(e.args[0], None)
            if exists and not any(x in ('old', 'new') for x in files.values()): lost = True
        c.ob(L + 'at no point is there no complete snapshot on disk', list(s.pc), not lost, run=q)
        c.ob(L + 'the records counted by the snapshot are in the history file before it is written', list(s.pc), hist and not early, run=q)
        c.ob(L + 'the snapshot is complete when the function returns', list(s.pc), files.get('snap') == 'new', run=q)
        c.ob(L + 'the replaced snapshot is kept as a backup', list(s.pc), not exists or 'old' in files.values(), run=q)
        good = final is not None and final.tag == ('json' if json else 'bincode')
        c.ob(L + 'the snapshot has the format of its file name', list(s.pc), good, run=q)
        if good:
            # what is saved is the state the run continues with
            cell, ty, val = q.roots['s']
            sv = s.copy(); sv.cells[cell] = final.info
            q2 = q; res0 = q.results; q.results = [(sv, None)]
            q.frame({'s.last_recovery_snapshot_time': var('s.current_time')}, free=('s.hash',)); q.results = res0
    q.frame({'s.last_recovery_snapshot_time': var('s.current_time')}, free=('s.hash',))
    q.returns_iff(and_(*[ieq(i, 0) for i in ioall]), 'every file operation succeeds')

# ---------------------------------------------------------------- the history file of a resumed run
def history(c):
    n, e = var('len'), var('expected')      # byte counts, as real numbers
    r = Run(c, 'integrator::output::get_universe_history_writer', '', contracts=fs({'exists': {}, 'json': {}, 'len': n}))
    r.args = [Opq('path', 'history'), e]
    r.go()
    if not r.results: raise Skip('does not return')
    io = [ieq(ivar('io%d' % (i + 1), (0, 1)), 0) for i in range(r.ex.nio)]
    r.returns_iff(and_(*io, le(e, n)), 'the file can be used and holds at least the expected bytes')
    for s, v in r.states():
        t = s.trace; L = 'history file: '
        op = [x for x in t if x.name == 'open']; sl = [x for x in t if x.name == 'set_len']
        c.ob(L + 'is opened for appending and never truncated on opening', list(s.pc), len(op) == 1 and op[0].args[1].get('append') is True and op[0].args[1].get('create') is True and not op[0].args[1].get('truncate'), run=r)
        c.ob(L + 'is cut to the records of the snapshot', list(s.pc), and_(len(sl) >= 1 and sl[-1].guard, eqv(sl[-1].args[1], e)) if sl else same(n, e), run=r)
        c.ob(L + 'the returned writer appends to it', list(s.pc), type(v) is Opq and v.info == 'history', run=r)

# ---------------------------------------------------------------- restoring
def restore(c, kind, json, exists):
    L = 'restore %s %s %s: ' % (kind, 'json' if json else 'bin', 'present' if exists else 'missing')
    K = fs({'exists': {'snap': exists}, 'json': {'snap': json}})
    def dec(ex, st, a, f, w):
        for n in MOD:
            if f['name'].rstrip('>').endswith(MOD[n]):
                if n != kind: return [(st, err(Opq('decode error')))]
                ex.event(st, 'decoded', 'json' if 'json' in f['path'] else 'bin')
                return [(st, ok(Opq('state', n)))]
        raise Unsupported('decoding of ' + f['name'])
    for p in ('posidonius::bincode::deserialize_from', 'posidonius::serde_json::from_str', 'posidonius::serde_json::from_reader'): K[p] = dec
    K['std::io::Read::read_to_string'] = lambda ex, st, a, f, w: [(st, res(ex, st, ivar('read', ())))]
    K['std::string::String::new'] = lambda ex, st, a, f, w: [(st, Opq('string'))]
    t = var('t')
    def gt(ex, st, a, f, w): return [(st, t)]
    def init(ex, st, a, f, w): ex.event(st, 'initialize', follow(ex, st, a[0])); return [(st, UNIT)]
    K['posidonius::integrator::Integrator::get_current_time'] = gt; K['posidonius::integrator::Integrator::initialize_physical_values'] = init
    r = Run(c, 'integrator::output::restore_snapshot', L, contracts=K)
    r.args = [Opq('path', 'snap')]
    r.go()
    if not r.results: raise Skip('does not return')
    for s, v in r.states():
        v = force(v); d = v.d
        good = ieq(d, 0) if type(d) is T else d == 0
        if not exists: c.ob(L + 'refused', list(s.pc), not_(good), run=r); continue
        io = and_(*[ieq(ivar('io%d' % (i + 1), (0, 1)), 0) for i in range(r.ex.nio)])
        c.ob(L + 'accepted when readable', list(s.pc) + [io], good, run=r)
        try: x = follow(r.ex, s, v.pay[0][0])
        except KeyError: continue
        h = list(s.pc) + [good] if good is not True else list(s.pc)
        c.ob(L + 'the restored state is the stored one', h, type(x) is Opq and x.tag == 'state' and x.info == kind, run=r)
        de = [e for e in s.trace if e.name == 'decoded']
        c.ob(L + 'the decoder is that of the file format', h, bool(de) and all(e.args[0] == ('json' if json else 'bin') for e in de), run=r)
        ini = or_(*[e.guard for e in s.trace if e.name == 'initialize']) if any(e.name == 'initialize' for e in s.trace) else False
        c.ob(L + 'physical values are initialised exactly at the start of a run', h, iff(ini, eq(t, const(0))) if ini is not False else not_(eq(t, const(0))), run=r)
