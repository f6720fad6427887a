"""P21: historic records, recovery points and the end of the run follow the configured schedule, for every integrator."""
from engine.spec import *
from props.lib import *
from props.intg import *
from props.out import *

def check(c):
    std_assumptions(c)
    c.assume('gravity and effects leave the schedule alone (their contracts change only the bodies); bincode appends fixed-width little-endian numbers and does not fail; the Ias15 step is an arbitrary advance of time and time step')
    c.set_signs(isigns)
    for name in MOD:
        for n in (1, 2) + ((3, 10) if c.tier != 'quick' else ()):
            for case in ('first', 'later'): c.group('%s %s n=%d' % (name, case, n), sched, c, name, n, case)

def sched(c, name, n, case):
    R = run_iterate(c, name, n, 0, '%s record n=%d' % (case, n))
    q = R.r; lh, lr, t, hp, rp = (var('s.' + x) for x in ('last_historic_snapshot_time', 'last_recovery_snapshot_time', 'current_time', 'historic_snapshot_period', 'recovery_snapshot_period'))
    dt = var('s.time_step'); first = lt(lh, const(0))
    if case == 'first': q.assume(first)
    else: q.assume(le(const(0), lh))
    R.st0 = q.st.copy()
    R.go(); due = True if case == 'first' else le(lh + hp, t)
    if not q.results: raise Skip('the step does not return')
    t1, dt1 = (t + dt, dt) if name != 'Ias15' else (t + var('h.dt'), var('h.new_dt'))
    L = '%s iterate %s: ' % (name, q.label)
    for s, v in q.states():
        a = q.post(s, 's'); h = list(s.pc)
        def eqo(what, path, g, w): c.ob(L + what, h, eqv(g, w), info={'path': path, 'got': g, 'want': w}, run=q)
        W = [e for e in s.trace if e.name == 'write']
        c.ob(L + 'something is written', h, len(W) > 0, run=q)
        for k, e in enumerate(W): c.ob(L + 'written exactly when due (%d)' % k, h, iff(e.guard, due), info={'path': 'written', 'got': e.guard, 'want': due}, run=q)
        eqo('time advances', 's.current_time', a.current_time, t1)
        eqo('time step', 's.time_step', a.time_step, dt1)
        eqo('iterations', 's.current_iteration', a.current_iteration, 8)
        eqo('records are counted', 's.n_historic_snapshots', a.n_historic_snapshots, ite_i(due, 4, 3) if due is not True else 4)
        nxt = t if name == 'Ias15' else const(0) if case == 'first' else lh + hp
        eqo('time of the last record', 's.last_historic_snapshot_time', a.last_historic_snapshot_time, ite(due, nxt, lh) if due is not True else nxt)
        eqo('time of the last recovery point', 's.last_recovery_snapshot_time', a.last_recovery_snapshot_time, lr)
        for f in ('historic_snapshot_period', 'recovery_snapshot_period'): eqo(f, 's.' + f, getattr(a, f), var('s.' + f))
        eqo('time limit', 's.universe.time_limit', a.universe.time_limit, var('s.universe.time_limit'))
        end = lt(var('s.universe.time_limit'), t1 + dt1); d = force(v).d
        de = ieq(d, 1) if type(d) is not int else d == 1
        c.ob(L + 'ends exactly when another step would pass the limit', h, iff(de, end), info={'path': 'ret.Err', 'got': de, 'want': end}, run=q)
        try: r = force(v).pay[0][0]
        except KeyError: r = False
        rec = True if case == 'first' else le(lr + rp, t)
        c.ob(L + 'asks for a recovery snapshot exactly when due', h + [not_(end)], eqv(r, rec), info={'path': 'ret.Ok', 'got': r, 'want': rec}, run=q)
    q.returns_iff(True, 'never fails')
