"""Rewrites the 'fixed' lines of known_findings.jsonl from the fix commits in /repo (the 'known' lines are kept)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in '''
3d2ab16 C01
2b14aff C28
9bbfe2a C02
3757610 C07
82d6459 C05
796f268 C05
4d87ef8 C03
58ad5a2 C04
56beee1 C05
fb57f58 C07
00e41e2 C14
7254f09 C14
1163171 C14
e4a8038 C04
f84438e C05
8cc80f1 C20
3136d08 C24
ff47119 C07
d545bf8 C14
b0e6637 C24
47b0a9e C21
afc056f C05
888eb45 C22
f6774d1 C22
d21aada C26
9b02004 C26
e9cf7b6 C26
77c4cb0 C04
85a15a5 C14
f398526 C26
901f662 C05
7c42228 C24
237b423 C24
03905a3 C07
fdc4216 C25
f858308 C09
ade718d C10
5a47434 C08
a5ce9dc C08
5ed38ca C09
937e4d3 C09
8c632d5 C09
82445b6 C09
dad5f3e C09
6fb85b0 C08
8dc07a8 C08
d8c8b19 C09
7e57ff4 C09
495d8a3 C09
4e8a700 C27
e939564 C27
47a449e C21
4bd9f7e C22
08ce27b C22
4dfa5b6 C07
7d4a6af C07
3c6753a C18
bb36477 C24
34281e9 C07
4595fd9 C05
2cfad84 C18
55527b7 C24
1aaa7c3 C18
7f3c840 C18
158cdc4 C18
e31c61b C05
5903a1f C19
604e5bc C19
3d8e277 C19
fec7581 C19
aecbf18 C24
bb08a17 C23
8c6edab C25
cae5ccd C07
ee3f252 C07
e63d571 C07
5dd37b0 C07
745e52c C15
020596b C15
e59843f C15
d241b0f C02
b5fe925 C05
e7be48d C05
ff52cdd C24
6c16b7c C30
9b73b3c C30
1e058dc C32
40e8dc3 C32
7c5eaa4 C21
'''.strip().splitlines())
path = os.path.join(HERE, 'known_findings.jsonl')
rows = [json.loads(l) for l in open(path) if l.strip()]
rows = [r for r in rows if r.get('kind') != 'fixed']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, m = l.split(' ', 1)
    if m.startswith('fix: '):
        rows.append({'property': PROP[h[:7]], 'kind': 'fixed', 'commit': h[:7], 'what': m[5:], 'line': f'fixed: property={PROP[h[:7]]} {h[:7]} {m[5:]}'})
with open(path, 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
print(len(rows))
