"""Writes DESIGN.md from design_head.md, the per-property texts below, known_findings.json and the seeded changes."""
import json
import os
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, 'tools')
D = runpy.run_path(os.path.join(T, 'design_text.py'))
out = [open(os.path.join(T, 'design_head.md')).read()]
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
out.append('## Properties\n\nStatements are in `properties.jsonl`.  For each: what is enumerated and bounded, the oracle, and what it reaches that the tests do not.\n')
for p in props:
    t = D['TEXT'][p['id']]
    out.append('### {} {}\n'.format(p['id'], p['title']))
    out.append('*Enumerated.* {}\n\n*Oracle.* {}\n\n*Beyond the tests.* {}\n'.format(*t))
out.append(D['REST'])
k = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
out.append('## Genuine defects found and repaired\n\nEach is one `fix:` commit in `/repo`; the check named first reports it again when the commit is reverted (verified one by one, '
           'see "Detection").  No finding is left open: `known_findings.json` has only `fixed` entries.\n')
for f in k:
    out.append('* {} `{}` {}'.format(f['property'], f['commit'], f['what'].split(f['commit'])[1].strip()))
out.append('')
out.append(D['DETECT'])
S = os.path.join(HERE, 'seeded')
out.append('| planted change | property | needs | first version of the checks | now |\n|---|---|---|---|---|')
for s in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, s, 'meta.json')))
    a, b = D['SEEDS'].get(s, ('caught', 'caught by ' + m['property']))
    out.append('| `{}` | {} | {} | {} | {} |'.format(s, m['property'], m['needs'], a, b))
out.append('')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
