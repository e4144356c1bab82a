#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (claimed checks) and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, HERE + '/engine', HERE + '/native']
import props
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
NA = {
    'C27': 'a relation between running times / address traces of two runs; the verifier used here has no trace or cost semantics, and the algorithm is not constant time by construction (row reduction, quicksort and rejection sampling branch on ephemeral secrets), so no contract can establish it',
}
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]('quick')
        checks.append({'property': i, 'quick_cmd': f'python3-vt /verif/check.py {i} quick', 'thorough_cmd': f'python3-vt /verif/check.py {i} thorough',
                       'technique': s.get('technique', 'contract-based deductive verification of the compiled functions (own VC generator over CBMC goto programs, z3); bounded differential cases only to find inputs for refuted obligations'),
                       'level': s['level'], 'level_note': s.get('level_note') or ('Assumes: ' + '; '.join(s.get('assumptions', []) or ['the trusted base listed in the evidence file']) + '.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not covered yet: contracts for this property are still being written')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo: the checks compile the unmodified sources.'}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
