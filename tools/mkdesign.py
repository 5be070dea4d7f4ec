#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property list, the harness headers, known_findings.json and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(f'{V}/tools/design_head.md').read()
kf = json.load(open(f'{V}/known_findings.json'))
fixed = '| property | commit | what failed |\n|---|---|---|\n'
for l in kf['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l); fixed += f'| {m[1]} | {m[2]} | {m[3]} |\n'
if kf['findings']: fixed += '\nKnown findings that were not repaired:\n\n' + ''.join(f'- {json.dumps(x)}\n' for x in kf['findings'])
seeds = '| change | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
caught = json.load(open(f'{V}/tools/caught.json')) if os.path.exists(f'{V}/tools/caught.json') else {}
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d)); seeds += f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(n, m['property'] + ' (quick)')} |\n"
H = {}
for f in sorted(glob.glob(f'{V}/harness/*.cpp')):
    s = open(f).read(); d = re.search(r'^//VP property: (\w+)', s, re.M)
    info = {'file': os.path.basename(f), 'cases': re.findall(r'^//VP case ([\w.-]+): (.*)', s, re.M)}
    for k in ('bound', 'assume', 'tus', 'env', 'override', 'model'): m = re.search(rf'^//VP {k}: (.*)', s, re.M); info[k] = m[1] if m else ''
    if d: H.setdefault(d[1], []).append(info)
out = head.replace('@FIXED@', fixed).replace('@SEEDS@', seeds)
for p in map(json.loads, open(f'{V}/properties.jsonl')):
    out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Quantified:* {p['quantifier']['text']}. *Why tests cannot:* {p['why_tests_cant']}.\n\n"
    if p['anchors']['observe_at']: out += '*Observed at:* ' + '; '.join(p['anchors']['observe_at']) + '.\n\n'
    if p['id'] not in H: out += '*Not applicable:* see MANIFEST.json.\n'; continue
    for h in H[p['id']]:
        out += f"`harness/{h['file']}`, real code from `{h['tus']}`" + (f"; models `{' '.join(x for x in (h['env'], h['override'], h['model']) if x)}`" if h['env'] or h['override'] or h['model'] else '') + '.\n'
        if h['bound']: out += f"Bounds: {h['bound']}.\n"
        if h['assume']: out += f"Assumed: {h['assume']}.\n"
        out += '\n| case | quick | thorough | goals replayed natively |\n|---|---|---|---|\n'
        for n, r in h['cases']:
            g = {'quick': '', 'thorough': '', 'reach': ''}
            for part in r.split('|'):
                w = part.strip().split(' ', 1)
                if w[0] in g: g[w[0]] = w[1] if len(w) > 1 else ''
            out += f"| {n} | `{g['quick']}` | `{g['thorough']}` | {g['reach']} |\n"
        out += '\n'
open(f'{V}/DESIGN.md', 'w').write(out)
