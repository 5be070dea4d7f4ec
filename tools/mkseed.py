#!/usr/bin/env python3
"""mkseed.py ID PROP FILE (reads a python-ish spec from stdin): OLD/NEW blocks and a demo. Spec: '<<<' old '===' new '>>>' blocks, optional 'FILE: path' lines between, then 'DEMO' followed by C++ code, then 'NEEDS: ...' 'BREAKS: ...' lines at the top."""
import sys, os, re, subprocess, json
sid, prop, spec = sys.argv[1], sys.argv[2], sys.stdin.read()
head, demo = spec.split('\nDEMO\n', 1); d = f'/verif/seeded/{sid}'; os.makedirs(d, exist_ok=True)
assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout == ''
cur = None
for m in re.finditer(r'^FILE: ([^\n]*)$|^<<<\n(.*?)\n===\n(.*?)\n?^>>>$', head, re.M | re.S):
    if m.group(1): cur = '/repo/' + m.group(1)
    else:
        s = open(cur).read(); assert s.count(m.group(2)) == 1, (cur, m.group(2), s.count(m.group(2))); open(cur, 'w').write(s.replace(m.group(2), m.group(3)))
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout; subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
assert diff; open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': re.search(r'^NEEDS: (.*)$', head, re.M).group(1), 'what_it_breaks': re.search(r'^BREAKS: (.*)$', head, re.M).group(1)}, open(d + '/meta.json', 'w'), indent=1)
if demo.startswith('#!'):
    open(d + '/demo.sh', 'w').write(demo)
else:
    open(d + '/demo.cpp', 'w').write(demo); x = ''
    if '//DB' in demo:
        import shutil; shutil.copy('/verif/env/sqlite_model.cpp', d + '/sqlite_standin.cpp'); shutil.copy('/verif/tools/vpstub.cpp', d + '/standin_threads.cpp'); x = '"$D/sqlite_standin.cpp" "$D/standin_threads.cpp" -Wl,--allow-multiple-definition '
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds a small program against the libraries in /repo (cwd) and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++20 -g -O1 -w -fno-access-control -DSQLITE_ENABLE_NORMALIZE -include /opt/vp/missing/mbedtls3.h -I. -Imbedtls/include "$D/demo.cpp" @X@-o "$T/demo" $(grep -oP '^//LINK \\K.*' "$D/demo.cpp") -L. -Wl,--start-group -lbedrock -lstuff -Wl,--end-group .build/vp/missing.o -rdynamic -ldl -lpcre2-8 -lpthread -lmbedtls -lmbedx509 -lmbedcrypto -lz -lzstd -lm || exit 3
cd "$T" && timeout 60 ./demo
'''.replace('@X@', x))
os.chmod(d + '/demo.sh', 0o755)
