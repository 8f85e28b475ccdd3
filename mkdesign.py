"""Fills the generated sections of DESIGN.md from design.in.md, props.py and known_findings.json."""
import json, os, textwrap
from props import PROPS, NA
H = os.path.dirname(os.path.abspath(__file__)); t = open(H + '/design.in.md').read()
out = ['## 2. Claimed properties\n']
for p, d in sorted(PROPS.items()):
    out.append('### %s %s\n' % (p, d['title']))
    out.append('Specified and proved: ' + d.get('design', '') + '\n')
    out.append('Functions under contract: ' + '; '.join('`%s` (%s)' % (s[0], 'all in the file' if s[1] is None else ', '.join(s[1])) for s in d.get('specs', [])) + '.\n')
    out.append('Bounded stand-in (%s): %s.\n' % (', '.join(d.get('harness', [])), d.get('bounded', '')))
    if d.get('assumptions'): out.append('Assumed: ' + '; '.join(d['assumptions']) + '. The assumed contracts of callees are listed in the evidence.\n')
    if d.get('cost'): out.append('Cost: ' + d['cost'] + '\n')
t = t.replace('@@PROPS@@', '\n'.join(out))
t = t.replace('@@NA@@', '\n'.join('* **%s %s**: %s' % (p, d['title'], d['reason']) for p, d in sorted(NA.items())))
k = json.load(open(H + '/known_findings.json'))
rows = []
for f in k['fixed']: w = f['entry'].split(' ', 3); rows.append('| %s | %s | fixed in %s |' % (w[1].split('=')[1], w[3], w[2]))
for f in k['findings']: rows.append('| %s | %s | known finding `%s` |' % (f['property'], f['what'], f['key']))
t = t.replace('@@DEFECTS@@', '\n'.join(rows))
res = json.load(open(H + '/seed_results.json')) if os.path.exists(H + '/seed_results.json') else {}
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(H + '/seeded')) if os.path.isdir(H + '/seeded') else []:
    m = json.load(open(H + '/seeded/%s/meta.json' % s)); rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], res.get(s, '')))
t = t.replace('@@SEEDS@@', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(t)
