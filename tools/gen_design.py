"""Writes DESIGN.md from the texts below, the manifest table, the seeded changes and the findings file."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, 'tools'))
from design_texts import HEAD, PROPS, TAIL
from manifest_table import TABLE, NA

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
built = {os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, 'vp/checks/c[0-9]*.py'))}
out = [HEAD.strip(), '', '## Properties and how each is decided', '']
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}")
    out.append('')
    if i in PROPS and i in built and i in TABLE:
        for k, v in PROPS[i]:
            out.append(f'- *{k}.* {v}')
    elif i in NA:
        out.append(f'Not applicable: {NA[i]}')
    else:
        out.append('Not claimed: ' + dict(PROPS.get(i, [])).get('why not', 'no check was built in the time available.'))
    out.append('')
rows = [json.loads(l) for l in open(os.path.join(HERE, 'known_findings.jsonl')) if l.strip()]
out += ['## Genuine defects found', '',
        f"{sum(r['kind'] == 'fixed' for r in rows)} defects of the original tree were found and repaired, each in a `fix:` commit of /repo (the list with commits is `known_findings.jsonl`):", '']
by = {}
for r in rows:
    by.setdefault(r['property'], []).append(r)
for i in sorted(by):
    for r in by[i]:
        out.append(f"- {i}: " + (f"{r['what']} (`{r['commit']}`)" if r['kind'] == 'fixed' else f"**recorded, not repaired** — {r['what']}"))
out += ['', '## Seeded changes and what catches them', '', '| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
out += ['', TAIL.strip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)))
