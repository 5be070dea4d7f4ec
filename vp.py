#!/usr/bin/env python3
"""Driver: builds the symbolic executor, lowers /repo's current sources to bitcode, runs the harnesses of a property,
replays counterexamples against the natively compiled real code, writes evidence.
  vp.py setup                    build the engine (a check lowers the sources it needs itself)
  vp.py check PID                decide one property (VERIF_TIER=quick|thorough)
  vp.py run HARNESS [CASE]       development: run one harness verbosely
"""
import sys, os, re, json, hashlib, subprocess, time, glob, shutil, threading, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo'); B = os.path.join(V, 'build'); NCPU = os.cpu_count() or 4
T0 = time.time(); BUDGET = float(os.environ.get('VP_BUDGET', '840'))
MISSING = '/opt/vp/missing/mbedtls3.h'
COMMON = ['-std=c++20', '-DSQLITE_ENABLE_NORMALIZE', '-DGIT_REVISION=0000000', f'-I{REPO}', f'-I{REPO}/mbedtls/include', '-w'] + (['-include', MISSING] if os.path.exists(MISSING) else [])
BCFLAGS = ['-O1', '-fPIC', f'-I{V}/shim', '-include', f'{V}/shim/vpstream.h', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_CHRONO_IO_H=1', '-D_GLIBCXX_FORMAT=1', '-D_STREAMBUF_ITERATOR_H=1', '-D_OSTREAM_INSERT_H=1', '-gline-tables-only', '-U__OPTIMIZE__', '-D__NO_CTYPE', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops']
NATFLAGS = ['-O0', '-fPIC', '-gline-tables-only', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
LLC = 'llc-18' if shutil.which('llc-18') else 'llc'
class Err(Exception): pass
def log(*a): print(f'[{time.time()-T0:6.1f}]', *a, file=sys.stderr, flush=True)
def sh(cmd, what, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if r.returncode:
        o = r.stdout.decode('utf8', 'replace'); e = [l for l in o.splitlines() if 'error' in l or 'undefined' in l][:12]
        raise Err(f'{what} failed ({r.returncode}): ' + '\n'.join(e or o.splitlines()[-12:]))
    return r.stdout
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
_tree = {}
def treehash(*pats):
    if pats not in _tree:
        fs = sorted(set(f for p in pats for f in glob.glob(p))); _tree[pats] = h(*[x for f in fs for x in (f, rd(f))])
    return _tree[pats]
def hdrs(): return treehash(f'{REPO}/libstuff/*.h', f'{REPO}/sqlitecluster/*.h', f'{REPO}/plugins/*.h', f'{REPO}/*.h', f'{V}/shim/*', f'{V}/rt/*.h', f'{V}/env/*.h', f'{V}/harness/*.h')
_locks = {}; _ll = threading.Lock()
def once(path, fn):
    with _ll: lk = _locks.setdefault(path, threading.Lock())
    with lk:
        if os.path.exists(path): return path
        os.makedirs(os.path.dirname(path), exist_ok=True); t = f'{path}.{os.getpid()}.tmp'; fn(t); os.rename(t, path); return path
def engine():
    key = treehash(f'{V}/engine/*'); p = f'{B}/symex-{key}'
    def mk(t):
        sh(['make', '-s', '-j4', '-C', f'{V}/engine', f'OUT={B}/eng-{key}'], 'engine build'); shutil.copy(f'{B}/eng-{key}/symex', t)
        for o in glob.glob(f'{B}/symex-*'):
            if o != p and not o.endswith('.tmp'): os.unlink(o)
    return once(p, mk)
def bc(src, extra=()):
    fl = COMMON + BCFLAGS + list(extra); k = h(rd(src), src, hdrs(), ' '.join(fl)); p = f'{B}/bc/{os.path.basename(src)}-{k}.bc'
    return once(p, lambda t: sh([CXX] + fl + ['-c', src, '-o', t], 'bitcode ' + src))
def nat(src, extra=()):
    fl = COMMON + NATFLAGS + list(extra); k = h(rd(src), src, hdrs(), ' '.join(fl)); p = f'{B}/nat/{os.path.basename(src)}-{k}.o'
    return once(p, lambda t: sh([CXX] + fl + ['-c', src, '-o', t], 'native ' + src))
def link(cmd, libs, t, what):
    cmd = cmd + ['-Wl,--warn-unresolved-symbols', '-Wl,--no-demangle', '-Wl,--allow-multiple-definition']
    o = sh(cmd + libs, what).decode('utf8', 'replace'); und = sorted(set(re.findall(r"undefined reference to `([^']+)'", o)))
    if und:  # functions outside the harness's reach: calling one traps
        with open(t + '.s', 'w') as f: f.write('.text\n' + ''.join(f'.globl "{u}"\n.type "{u}",@function\n"{u}": ud2\n.zero 62\n' for u in und if not u.startswith('_ZTV') and not u.startswith('_ZTI')) + '.data\n' + ''.join(f'.globl "{u}"\n"{u}": .zero 256\n' for u in und if u.startswith('_ZTV') or u.startswith('_ZTI')) + '.section .note.GNU-stack,"",@progbits\n')
        sh([CXX, '-c', t + '.s', '-o', t + '.so_'], 'stubs'); sh(cmd + [t + '.so_'] + libs, what); os.unlink(t + '.s'); os.unlink(t + '.so_')
class Harness:
    def __init__(s, path):
        s.path = path; s.name = os.path.basename(path)[:-4]; s.src = rd(path).decode(); s.d = {}; s.cases = []
        for m in re.finditer(r'^//VP (\w+)(?: ([\w.-]+))?: ?(.*)$', s.src, re.M):
            k, n, v = m.groups()
            if k == 'case':
                c = {'name': n, 'quick': None, 'thorough': None, 'opts': '', 'prop': None}
                for part in v.split('|'):
                    part = part.strip(); w, _, r = part.partition(' '); c[w] = r.strip() or ''
                s.cases.append(c)
            else: s.d[k] = (s.d.get(k, '') + ' ' + v).strip()
        s.prop = s.d.get('property')
        if not s.cases: s.cases = [{'name': 'main', 'quick': '', 'thorough': '', 'opts': '', 'prop': None}]
        for c in s.cases: c['prop'] = c['prop'] or s.prop
    def files(s, key, base):
        r = []
        for pat in s.d.get(key, '').split():
            fs = sorted(glob.glob(os.path.join(base, pat)))
            if not fs and '?' not in pat: raise Err(f'{s.name}: no file {pat}')
            r += fs
        return r
    def defs(s): return s.d.get('defs', '').split()
    def module(s):
        ex = ['-fno-access-control'] + s.defs()
        jobs = [(s.path, ex), (f'{V}/rt/rt.cpp', ['-fno-builtin', '-fno-access-control'])] + [(f, ex) for f in s.files('env', f'{V}/env') + s.files('model', f'{V}/env')]
        ov = [(f, ex) for f in s.files('override', f'{V}/env')]
        tus = [(f, []) for f in s.tus()]
        with cf.ThreadPoolExecutor(NCPU) as ex_: outs = list(ex_.map(lambda j: bc(*j), tus + jobs + ov))
        key = h(*outs, 'v3'); p = f'{B}/mod/{s.name}-{key}.bc'
        def mk(t):
            nov = len(ov); main = outs[:len(outs) - nov]; ovr = outs[len(outs) - nov:]
            sh([LINK] + main + [f'--override={o}' for o in ovr] + ['-o', t + '.l'], 'link ' + s.name)
            sh([OPT, '-passes=internalize,globaldce', '-internalize-public-api-list=vp_main', t + '.l', '-o', t], 'opt ' + s.name); os.unlink(t + '.l')
        return once(p, mk)
    def tus(s): return s.files('tus', REPO)
    def native(s):
        ex = ['-fno-access-control'] + s.defs()
        jobs = [(f, ex) for f in s.files('override', f'{V}/env')] + [(s.path, ex), (f'{V}/rt/native.cpp', [])] + [(f, ex) for f in s.files('env', f'{V}/env')] + [(f, []) for f in s.tus()]
        with cf.ThreadPoolExecutor(NCPU) as ex_: outs = list(ex_.map(lambda j: nat(*j), jobs))
        p = f'{B}/exe/{s.name}-{h(*outs, "v4")}'
        def mk(t):
            link([CXX, '-fsanitize=address', '-rdynamic', '-Wl,--gc-sections', '-o', t] + outs, ['-Wl,--no-as-needed', '-lpthread', '-ldl', '-lm'] + ['-lpcre2-8', '-lz', '-lzstd', '-lmbedtls', '-lmbedx509', '-lmbedcrypto'] + s.d.get('libs', '').split(), t, 'native link ' + s.name)
        return once(p, mk)
    def threaded(s): return s.d.get('threads', '') != ''
    def schedexe(s):
        """The same bitcode compiled to machine code with a deterministic scheduler: replays a recorded interleaving."""
        m = s.module(); key = h(m, treehash(f'{V}/rt/sched.cpp', f'{V}/rt/native.cpp', f'{V}/engine/*')); p = f'{B}/exe/{s.name}-sched-{key}'
        def mk(t):
            sh([engine(), m, '--instrument', t + '.i.bc'], 'instrument'); sh([OPT, '-passes=asan', t + '.i.bc', '-o', t + '.a.bc'], 'asan')
            sh([LLC, '-O0', '-relocation-model=pic', '-filetype=obj', t + '.a.bc', '-o', t + '.o'], 'llc')
            sh([CXX, '-O1', '-std=c++20', '-w', '-fsanitize=address', f'-I{V}/rt', '-c', '-o', t + '.so', f'{V}/rt/sched.cpp'], 'sched runtime')
            link([CXX, '-fsanitize=address', '-o', t, t + '.o', t + '.so'], ['-lpthread', '-ldl', '-lm'], t, 'sched link ' + s.name)
            for x in ('.o', '.so', '.i.bc', '.a.bc'): os.unlink(t + x)
        return once(p, mk)
def harnesses(): return [Harness(p) for p in sorted(glob.glob(f'{V}/harness/*.cpp'))]
def plist(params): return dict(x.split('=') for x in params.split() if '=' in x)
SUM = ['paths', 'completed', 'pruned', 'errors', 'instructions', 'forks', 'concretizations', 'obligations', 'obligations_folded', 'obligations_solver', 'unknown', 'sched_points', 'queries', 'q_model', 'q_unary', 'q_cache', 'q_enum', 'q_z3', 'z3_sat', 'z3_unsat', 'z3_unknown', 'z3_time']
def run_case(hn, case, tier, workers, known, verbose=False):
    mod = hn.module(); params = case[tier] if case[tier] is not None else case['quick']
    out = f'{B}/out/{hn.name}.{case["name"]}.{os.getpid()}'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    opts = (hn.d.get('opts', '') + ' ' + case['opts']).split(); pr = [x for x in params.split() if '=' in x]; opts += [x for x in params.split() if '=' not in x]
    left = BUDGET - 60 - (time.time() - T0)
    if left < 5: raise Err('out of time before ' + case['name'])
    if '--time' not in opts: opts += ['--time', str(int(left))]
    cmd = [engine(), mod, '--out', out, '--workers', str(workers), '--repo', REPO + '/'] + opts
    for x in pr: cmd += ['--param', x]
    for k in known: cmd += ['--known', k]
    if verbose: cmd.append('-v')
    t = time.time(); r = subprocess.run(cmd, stdout=subprocess.PIPE if not verbose else None, stderr=subprocess.STDOUT if not verbose else None, timeout=max(30, left + 100))
    res = {'harness': hn.name, 'case': case['name'], 'params': params, 'opts': ' '.join(opts), 'wall': round(time.time() - t, 2)}
    for k in SUM: res[k] = 0
    res.update(incomplete={}, reach={}, obligation_labels={}, functions=[], violations=[], witness={}, witness_sched={}, z3_max=0)
    fs = glob.glob(out + '/w*.json'); fn = set()
    try: summ = json.loads(rd(out + '/summary.json'))
    except Exception: summ = {'started': -1, 'crashed': 1, 'active': 0}
    if r.returncode or summ['crashed'] or summ['active'] or summ['started'] != len(fs):
        res['incomplete']['engine-worker-lost'] = 1; res['engine_out'] = (r.stdout or b'').decode('utf8', 'replace')[-600:]
    for f in fs:
        j = json.loads(rd(f))
        for k in SUM: res[k] += j[k]
        res['z3_max'] = max(res['z3_max'], j['z3_max'])
        for k in ('incomplete', 'reach', 'obligation_labels'):
            for a, b in j[k].items(): res[k][a] = res[k].get(a, 0) + b
        fn.update(j['functions']); res['violations'] += j['violations']
        for a, b in j['witness'].items():
            if a not in res['witness']: res['witness'][a] = b; res['witness_sched'][a] = j['witness_sched'].get(a, '')
    res['functions'] = sorted(fn); shutil.rmtree(out, ignore_errors=True); return res
def replay_file(path, hn, case, params, label, inputs, sched, extra=''):
    with open(path, 'w') as f:
        f.write(f'# harness={hn} case={case} label={label}\n# params={params}\n# sched={sched}\n')
        for l in extra.splitlines(): f.write('# ' + l + '\n')
        for n, x in inputs: f.write(f'{n}\t{x}\n')
def run_replay(hn, path, params, sched, timeout=60, verbose=False):
    exe = hn.schedexe() if hn.threaded() else hn.native()
    d = f'{B}/scratch.{os.getpid()}.{threading.get_ident()}'; os.makedirs(d, exist_ok=True)
    env = dict(os.environ, VP_REPLAY=path, VP_PARAMS=' '.join(x for x in params.split() if '=' in x), VP_SCHED=sched, VP_VERBOSE='1', ASAN_OPTIONS='exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0', TZ='UTC')
    try:
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d); rc, o = p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e: rc, o = -14, (e.stdout or b'').decode('utf8', 'replace') + '\n(timeout)'
    shutil.rmtree(d, ignore_errors=True); return rc, o
def confirmed(v, rc):
    if v['kind'] == 'assertion': return rc in (77, 99) or rc < 0
    return rc in (77, 99) or rc < 0
def known_findings():
    p = f'{V}/known_findings.json'
    return json.loads(rd(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}
def check(pid, tier):
    hs = [(hn, c) for hn in harnesses() for c in hn.cases if c['prop'] == pid and not (tier == 'quick' and c['quick'] is None)]
    if not hs: raise Err('no harness for ' + pid)
    kf = [k for k in known_findings()['findings'] if k['property'] == pid]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fe = ex.submit(engine); uh = {hn.name: hn for hn, _ in hs}; fm = [ex.submit(x.module) for x in uh.values()]
        fn_ = [ex.submit(x.schedexe if x.threaded() else x.native) for x in uh.values()]
        fe.result(); [f.result() for f in fm]
    log(f'{pid}: built'); results = []; bad = []; viol = []; knownhit = {}; sem = threading.Semaphore(NCPU); validated = [0]; vmis = []
    par = max(1, min(len(hs), NCPU)); W = max(2, (NCPU + par - 1) // par) if len(hs) > 1 else NCPU
    def one(hc):
        hn, c = hc; kl = {k['label'] for k in kf if k['harness'] == hn.name and k.get('case', c['name']) == c['name']}
        w = int(dict(zip(c['opts'].split()[::2], c['opts'].split()[1::2])).get('--workers', W)); r = run_case(hn, c, tier, w, kl); r['known'] = kl; return hn, c, r
    exp = cf.ThreadPoolExecutor(par)
    try:
        for f in cf.as_completed([exp.submit(one, x) for x in hs]):
            hn, c, r = f.result(); results.append(r); kl = r.pop('known')
            log(f"{hn.name}/{c['name']} [{r['params']}]: {r['paths']} paths, {r['obligations']} obligations, {r['q_z3']} z3 queries ({r['z3_time']:.1f}s), {r['wall']}s" + (f" INCOMPLETE {r['incomplete']}" if r['incomplete'] else '') + (f" VIOLATIONS {sorted(set(v['label'] for v in r['violations']))}" if r['violations'] else ''))
            unk = [v for v in r['violations'] if v['label'] not in kl]
            for v in r['violations']:
                if v['label'] in kl: knownhit[v['label']] = v
            seen = {}; 
            for v in sorted(unk, key=lambda v: sum(len(x[1]) for x in v['inputs'])):
                if seen.get(v['label'], 0) >= 3: continue
                seen[v['label']] = seen.get(v['label'], 0) + 1; viol.append((hn, c, r, v))
            if r['incomplete'] and not unk: bad.append(f"{hn.name}/{c['name']}: incomplete {r['incomplete']} {r.get('engine_out','')}")
            if r['unknown'] and not unk: bad.append(f"{hn.name}/{c['name']}: solver unknown")
            want = (hn.d.get('reach', '') + ' ' + c.get('reach', '')).split()
            miss = [x for x in want if x not in r['reach']]
            if miss and not unk: bad.append(f"{hn.name}/{c['name']}: vacuous, never reached {miss}")
            if not r['obligations'] and not unk: bad.append(f"{hn.name}/{c['name']}: no obligation reached")
    finally: exp.shutdown()
    os.makedirs(f'{V}/replay', exist_ok=True); confirmed_v = []; done = set()
    for hn, c, r, v in viol:
        key = (hn.name, c['name'], v['label'])
        if key in done: continue
        path = f"{V}/replay/{pid}-{hn.name}-{c['name']}-{re.sub(r'[^A-Za-z0-9_-]+', '_', v['label'])[:50]}.txt"
        rp = ' '.join(x for x in r['params'].split() if '=' in x)
        replay_file(path, hn.name, c['name'], rp, v['label'], v['inputs'], v['sched'], f"kind={v['kind']}\n{v['detail']}\n{v['trace']}")
        try: rc, o = run_replay(hn, path, rp, v['sched'])
        except Err as e: rc, o = None, str(e)
        ok = rc is not None and confirmed(v, rc)
        if ok:
            done.add(key); confirmed_v.append((v, path)); log(f"confirmed on the real code (exit {rc}): {v['label']}")
        else: log(f"counterexample NOT confirmed (exit {rc}) for {v['label']} in {hn.name}/{c['name']}: {v['detail']} {v['trace'][:400]}\n{o[-800:]}")
        with open(path, 'a') as f: f.write(f'# replay exit={rc} confirmed={ok}\n' + ''.join('# | ' + l + '\n' for l in o.splitlines()[-40:]))
    unconf = sorted({(hn.name, c['name'], v['label']) for hn, c, r, v in viol} - done)
    # validate the encoding: replay one witness per reach label on the natively compiled real code
    if not confirmed_v:
        jobs = []
        for f in fn_: f.result()
        for r in results:
            hn = uh[r['harness']]
            for lab, inp in r['witness'].items(): jobs.append((hn, r, lab, inp))
        def val(j):
            hn, r, lab, inp = j; path = f"{B}/wit.{os.getpid()}.{h(hn.name, r['case'], lab)}"; rp = ' '.join(x for x in r['params'].split() if '=' in x)
            replay_file(path, hn.name, r['case'], rp, lab, inp, r['witness_sched'].get(lab, '')); rc, o = run_replay(hn, path, rp, r['witness_sched'].get(lab, '')); os.unlink(path)
            return f'VP-REACH {lab}\n' in o and rc in ((0, 80) if hn.threaded() else (0,)) or (f'VP-REACH {lab}\n' in o and any(k['label'] in o for k in kf)), f"{hn.name}/{r['case']} witness {lab}: native exit {rc}: {o[-500:]}"
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for ok, m in ex.map(val, jobs):
                if ok: validated[0] += 1
                else: vmis.append(m)
    status = 1 if confirmed_v else (2 if unconf or bad or vmis else 0)
    tot = {k: round(sum(r[k] for r in results), 3) for k in SUM}
    fnall = sorted(set(f for r in results for f in r['functions']))
    cov = {'states': int(tot['paths'] + tot['forks'] + tot['sched_points']), 'transitions': int(tot['instructions']), 'traces_validated_against_impl': validated[0],
        'exhaustive': not bad and not viol and not unconf,
        'explanation': 'Symbolic execution of the LLVM bitcode of /repo\'s current sources. states = path prefixes (forks, scheduling decisions and path ends) explored; transitions = bitcode instructions interpreted on symbolic state; every branch and assertion is decided by the solver for all values within the bounds of each case; traces_validated_against_impl = solver witnesses replayed on the natively compiled code with the same outcome.',
        'functions_encoded': len(fnall), 'functions': fnall[:400], 'paths_completed': int(tot['completed']), 'paths_pruned_by_assumption': int(tot['pruned']),
        'assertions_checked': int(tot['obligations']), 'assertions_decided_by_folding': int(tot['obligations_folded']), 'assertions_decided_by_solver': int(tot['obligations_solver']),
        'solver_queries': int(tot['queries']), 'queries_by_z3': int(tot['q_z3']), 'queries_by_model_reuse': int(tot['q_model']), 'queries_by_exact_byte_domain': int(tot['q_unary']), 'queries_by_cache': int(tot['q_cache']), 'z3_sat': int(tot['z3_sat']), 'z3_unsat': int(tot['z3_unsat']), 'z3_unknown': int(tot['z3_unknown']), 'z3_seconds': tot['z3_time'],
        'cases': [{k: r[k] for k in ('harness', 'case', 'params', 'wall', 'paths', 'completed', 'obligations', 'q_z3', 'z3_time', 'sched_points', 'reach', 'obligation_labels', 'incomplete')} for r in results],
        'samples': [{'harness': r['harness'], 'case': r['case'], 'reached': l, 'inputs': i[:12]} for r in results for l, i in list(r['witness'].items())[:2]][:12]}
    ass = []
    for hn in uh.values(): ass += [f'{hn.name}: {m.group(1)}' for m in re.finditer(r'^//VP assume: ?(.*)$', hn.src, re.M)]
    ass += [f'{hn.name} bounds: ' + m.group(1) for hn in uh.values() for m in re.finditer(r'^//VP bound: ?(.*)$', hn.src, re.M)]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed_v)}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    with open(f'{V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ('' if k['label'] in knownhit else ' (not exercised in this run)'))
    for v, path in confirmed_v: print(f'VIOLATION property={pid} replay={path}'); print(f"  {v['label']} ({v['kind']}): {v['detail']}")
    for b in bad: log('ERROR', b)
    for u in unconf: log('ERROR unconfirmed counterexample', u)
    for m in vmis: log('ERROR witness mismatch', m)
    log(f'{pid}: exit {status}; {int(tot["paths"])} paths, {int(tot["obligations"])} assertions, {validated[0]} witnesses validated'); return status
def main():
    a = sys.argv[1:]; tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        if a[0] == 'setup':
            engine(); return 0
        if a[0] == 'check': return check(a[1], a[2] if len(a) > 2 else tier)
        if a[0] == 'replay':
            src = rd(a[1]).decode(); hn = Harness(f'{V}/harness/' + re.search(r'harness=(\S+)', src).group(1) + '.cpp'); rc, o = run_replay(hn, a[1], re.search(r'# params=(.*)', src).group(1), re.search(r'# sched=(.*)', src).group(1)); print(o); print('exit', rc); return 0
        if a[0] == 'run':
            hn = Harness(a[1] if os.path.exists(a[1]) else f'{V}/harness/{a[1]}.cpp')
            for c in hn.cases:
                if len(a) > 2 and a[2] and a[2][0] != '-' and c['name'] != a[2]: continue
                r = run_case(hn, c, tier, NCPU, set(), '-v' in a); vs = r.pop('violations'); r.pop('functions') if '-f' not in a else 0; w = r.pop('witness'); wsch = r.pop('witness_sched'); print(json.dumps(r, indent=None))
                done = set()
                for v in vs:
                    if v['label'] in done: continue
                    done.add(v['label']); print('VIOL', v['label'], v['kind'], v['detail'], v['trace'][:600]); print('   ', v['inputs'][:60], v['sched'][:300])
                    if '-r' in a:
                        p = f'{B}/dev.{h(v["label"])}'; replay_file(p, hn.name, c['name'], r['params'], v['label'], v['inputs'], v['sched']); rc, o = run_replay(hn, p, r['params'], v['sched']); print('    replay', p, rc, o[:700])
                if '-w' in a:
                    for l, i in w.items():
                        p = f'{B}/devw.{h(l)}'; replay_file(p, hn.name, c['name'], r['params'], l, i, wsch.get(l, '')); rc, o = run_replay(hn, p, r['params'], wsch.get(l, '')); print('WIT', l, i, 'replay', p, rc, o[:400])
            return 0
    except (Err, subprocess.TimeoutExpired) as e: log('ERROR', e); return 2
    return 2
if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); os._exit(rc)
