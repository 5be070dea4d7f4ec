#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json (a property with a harness is claimed)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = {}; NOTE = {}
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files.split(), 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None}})
    NOTE[id] = note
    if na: NA[id] = na
exec(open(os.path.join(V, 'tools/proplist.py')).read())
claimed = set()
for f in sorted(glob.glob(f'{V}/harness/*.cpp')):
    s = open(f).read(); m = re.search(r'^//VP property: (\w+)', s, re.M)
    if m: claimed.add(m.group(1))
    claimed |= set(re.findall(r'\| prop (\w+)', s))
ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids); assert claimed <= set(ids), claimed - set(ids)
for p in P:
    assert len(p['title']) <= 80, p['id']
    for f in p['anchors']['files']: assert os.path.exists('/repo/' + f), f
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
COMMON = ('Every branch and assertion on every path is decided by the solver, so within the stated bounds the verdict covers all values (and, for threaded cases, all interleavings within the preemption bound); outside the bounds nothing is claimed. '
          'Trusted: clang\'s lowering to LLVM IR, the symbolic executor and its C/C++ runtime models (rt/, env/), Z3; every reported violation is first reproduced on the natively compiled code, and one solver witness per reached goal is replayed there. ')
m = {'version': 1, 'setup_cmd': 'python3 vp.py setup',
     'checks': [{'property': p['id'], 'quick_cmd': f'python3 vp.py check {p["id"]}', 'thorough_cmd': f'python3 vp.py check {p["id"]} thorough',
                 'technique': 'symbolic execution of the real code\'s LLVM bitcode with Z3 deciding every branch and assertion', 'level': 'model_checking', 'level_note': COMMON + NOTE[p['id']]} for p in P if p['id'] in claimed],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'No check built yet.')} for p in P if p['id'] not in claimed],
     'notes': 'No hooks are compiled into /repo: the checks lower /repo\'s sources to LLVM bitcode as they are. See DESIGN.md.'}
with open(f'{V}/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties,', len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')
