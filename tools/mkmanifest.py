import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
try:
    NOTES = json.load(open(os.path.join(H, 'tools', 'levels.json')))
except OSError:
    NOTES = {}
checks = []
for p in props:
    n = NOTES.get(p['id'], {})
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=n.get('technique', 'contracts on the real functions, evaluated at run time (bounded)'),
                       level=n.get('level', 'exploration'), level_note=n.get('note', 'bounded evaluation of the contract on the real code')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
