"""Writes MANIFEST.json from specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
TECH = 'abstract interpretation of the LLVM IR (relational zones, trace partitioning, widening) against a contract harness'
NOTE = ('Decided from the compiled IR of the current sources, over all values of the unbounded inputs, for the listed template instances; '
        'trusts clang, mem2reg and the interpreter in engine/.')
checks = []
for p in ids:
    if p in specs.SPECS:
        s = specs.SPECS[p]
        checks.append(dict(property=p, quick_cmd='python3 engine/check.py %s quick' % p, thorough_cmd='python3 engine/check.py %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=s.get('technique', TECH), level='other', level_note=s.get('note', NOTE)))
na = [dict(property=p, reason=specs.NA.get(p, 'no check yet')) for p in ids if p not in specs.SPECS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
