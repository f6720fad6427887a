"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run by hand when the list changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the MIR of the real functions (symbolic execution against contracts; obligations over the reals discharged by identity testing and z3)'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
na = {x['property'] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na: continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt -m engine.run %s' % p['id'], 'thorough_cmd': 'python3-vt -m engine.run %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p.get('technique', TECH), 'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'true',
           'hooks': {'guard': 'cfg(posidonius_verif)', 'enable': "RUSTFLAGS='--cfg posidonius_verif' POSIDONIUS_VERIF_HOOKS=<directory with one .rs per hooked module>; only the replay driver enables it, the proofs read the MIR of the unhooked build", 'source_commits': ['56a2aae']},
           'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'See DESIGN.md. Repaired defects and known findings are listed in known-findings.jsonl.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
