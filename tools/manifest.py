"""Writes MANIFEST.json from contracts/*.py and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/na.json'))
NOTE = json.load(open(V + '/tools/notes.json'))
checks = []
for p in props:
    i = p['id']
    if os.path.exists('%s/contracts/%s.py' % (V, i)):
        n = NOTE[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt run.py %s quick' % i, 'thorough_cmd': 'python3-vt run.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': n.get('technique', 'contract-based deductive verification: VCs from the clang AST of the real functions, discharged by exact ring normalisation and z3'),
                       'level': n.get('level', 'proof'), 'level_note': n['note']})
na = [{'property': p['id'], 'reason': NA[p['id']]} for p in props if not os.path.exists('%s/contracts/%s.py' % (V, p['id']))]
json.dump({'version': 1, 'setup_cmd': 'mkdir -p build evidence && python3-vt -c "import z3, sympy" && clang++ --version > build/clang.txt', 'checks': checks, 'not_applicable': na,
           'notes': 'run.py <id> extracts the functions under contract from /repo on every run; see DESIGN.md'}, open(V + '/MANIFEST.json', 'w'), indent=1)
