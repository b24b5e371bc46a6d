"""Writes MANIFEST.json from the table below and the checks that exist in vp/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
exec(open(os.path.join(here, 'tools', 'manifest_table.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'vp', 'checks', i.lower() + '.py')) and i in TABLE:
        t, note = TABLE[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
