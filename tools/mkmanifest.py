"""Writes MANIFEST.json from properties.jsonl and the harness files present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx.run import bounds
NA = {}
naf = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(naf):
    NA = json.load(open(naf))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    hf = os.path.join(V, 'harness', p.lower() + '.py')
    if p in NA or not os.path.exists(hf):
        na.append({'property': p, 'reason': NA.get(p, 'No check built for this property.')})
        continue
    H = importlib.import_module('harness.' + p.lower())
    checks.append({
        'property': p,
        'quick_cmd': 'bin/check %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'dynamic symbolic execution of the real Python source (symx) with z3; every '
                     'counterexample replayed on the unmodified code',
        'level': 'model_checking',
        'level_note': ('Solver verdict over all input values within: ' + '; '.join(bounds(H)) +
                       '. Assumes: ' + ('; '.join(H.ASSUMES) or 'nothing beyond the bounds') +
                       '. Trusts z3 and the symbolic model of CPython in symx (cross-checked by '
                       're-running path models on the real code).'),
    })
m = {'version': 1, 'setup_cmd': 'python3-vt -B -c "import z3, symx.run"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed. Checks read /repo/xlrd at run time.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
