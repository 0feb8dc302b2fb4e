"""writes MANIFEST.json from the list below (run by hand when a check is added)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        t, n = NOTE[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py',
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks call the public functions', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
