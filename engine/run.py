"""python3-vt -m engine.run <property> [--tier quick|thorough]

Exit 0: every obligation generated from /repo's current source was discharged (or is a listed
known finding); exit 1: a violated obligation, with a VIOLATION line; exit 2: the check itself
could not run (the tree does not build, or no obligation was generated at all)."""
import os, sys, json, time, importlib, traceback, re
sys.setrecursionlimit(200000)
import threading
threading.stack_size(1 << 29)

def main():
    from . import spec, replay
    from .export import ExportError, VERIF
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = spec.Check(pid, tier, seed)
    mod = importlib.import_module('props.' + pid.lower())
    try: c.load()
    except ExportError as e:
        print('ERROR: %s' % e); return 2
    try: mod.check(c)
    except Exception as e:
        c.limits.append(('check', '%s: %s' % (type(e).__name__, e)))
        traceback.print_exc()
    c.finish_concrete()
    rc = 0
    findings = load_findings(VERIF, pid)
    for k in c.known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    vio = []
    if c.violations:
        order = sorted(c.violations, key=lambda o: 0 if getattr(o, 'run', None) is not None else 1)
        vio = replay.triage(c, order)
    rp = None
    if vio:
        rdir = os.path.join(VERIF, 'replay'); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + '.json')
        json.dump({'property': pid, 'violations': [v for v in vio]}, open(rp, 'w'), indent=1, default=str)
        confirmed = any(v['replayed'] for v in vio)
        for v in vio[:8]: print('  failed obligation: %s%s' % (v['obligation'], ' [replayed on the compiled code]' if v['replayed'] else ''))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if confirmed else ' no-failing-input-found'))
        rc = 1
    for t, w in c.limits[:12]: print('LIMIT: %s: %s' % (t, str(w)[:300]))
    for o in c.unknown[:12]: print('UNDECIDED (not an alarm): %s %s' % (o.name, str(o.res.detail or '')[:200]))
    nob = len(c.obs)
    level = getattr(mod, 'LEVEL', 'proof')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'obligations': nob, 'discharged': c.proved, 'refuted': len(c.violations), 'undecided': [o.name for o in c.unknown],
                       'known_findings': list(c.known), 'violated': [v['obligation'] for v in vio],
                       'tool_disagreements': getattr(c, 'disagreements', []),
                       'checker_cmd': 'python3-vt -m engine.run %s --tier %s' % (pid, tier),
                       'trusted_base': ['rustc nightly front end and MIR construction (unoptimised MIR of /repo, exported by mirx on this run)',
                                        'the symbolic executor engine/exe.py and its models of the std functions listed in std_models',
                                        'the identity-testing back end engine/prover.py (error probability < 2^-40 per obligation) and z3 where named'],
                       'functions_under_contract': sorted(c.functions), 'functions_verified_by_inlining': sorted(c.functions_inlined - c.functions),
                       'std_models': sorted(c.std_models), 'backends': c.backends, 'contract_groups': c.groups,
                       'symbolic_execution_s': round(c.exec_time, 2), 'prover_s': round(sum(p.pittime+p.z3time+p.numtime for p in getattr(c, 'prover_list', [])), 2),
                       'limits': [list(x) for x in c.limits], 'bounded': c.bounded, 'notes': c.notes, 'duplicate_obligations_skipped': c.dup,
                       'samples': [list(o) for o in c.obs[:5]]},
          'assumptions': c.assumptions, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(vio)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d violated, %d undecided, %d limits, %.1f s' % (pid, tier, nob, c.proved, len(vio), len(c.unknown), len(c.limits), time.time() - c.t0))
    if rc == 0 and nob == 0 and not c.bounded:
        print('NOTHING DECIDED: no obligation was generated (every contract lost its anchor, see the limits above)')
    return rc

def load_findings(verif, pid):
    p = os.path.join(verif, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d['property'] == pid: out.append(d)
    return out

def _thread():
    global RC
    try: RC = main()
    except SystemExit as e: RC = e.code
    except BaseException: traceback.print_exc(); RC = 2

if __name__ == '__main__':
    RC = 2
    t = threading.Thread(target=_thread); t.start(); t.join()
    sys.stdout.flush(); os._exit(RC)
