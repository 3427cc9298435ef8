"""Runner: builds every obligation of a property from /repo's current tree, has the verifier decide it, writes the evidence,
and reports.  See DESIGN.md for the verdict rules."""
import sys, os, re, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/preload-src/src'
sys.path.insert(0, VERIF + '/lib')

def cflags():
    m = open(REPO + '/preload-src/Makefile').read()
    d = re.findall(r'-D\w+(?:=\S+)?', m.split('CFLAGS +=')[0])
    d = [x.replace('\\"', '"') for x in d]
    g = subprocess.run(['pkg-config', '--cflags', 'glib-2.0'], capture_output=True, text=True).stdout.split()
    inc = ['-I%s/%s' % (SRC, x) for x in ('monitoring', 'handling', 'algorithm', 'config', 'daemon', 'utils')]
    return ['-std=c11'] + d + g + inc + ['-I' + SRC, '-I' + VERIF + '/proofs']

class Ob:
    """One proof obligation bundle: one function (or loop, or lemma) under contract."""
    def __init__(self, name, file, entry, function, enforce=None, replace=(), loops=False, unwind=None, unwindset=None,
                 solver=(), defines=(), inject=None, bounded=None, timeout=200, allow_nobody=(), flags=(), source=()):
        self.__dict__.update(locals())

class Result:
    def __init__(self, ob):
        self.ob = ob; self.status = 'undecided'; self.reason = ''; self.n = 0; self.ok = 0; self.failed = []
        self.covers = 0; self.wall = 0.0; self.solver_s = 0.0; self.cmds = []; self.trace = None

def sh(cmd, timeout, cwd=None):
    """run, never hang; returns (rc, out, err)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, start_new_session=True, errors='replace')
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return -9, '', 'timeout after %ds' % timeout

def run_ob(ob, scratch):
    r = Result(ob); t0 = time.time()
    try:
        _run_ob(ob, scratch, r)
    except Exception as e:                       # a failure of the tooling is never a verdict
        r.status = 'undecided'; r.reason = 'tooling: %r' % e
    r.wall = time.time() - t0
    return r

def _run_ob(ob, scratch, r):
    d = os.path.join(scratch, re.sub(r'\W', '_', ob.name)); os.makedirs(d, exist_ok=True)
    inc = []
    if ob.inject:
        import inject
        inc = ['-I' + d]
        reason = inject.apply(ob.inject, SRC, d, cflags())
        if reason:
            r.reason = 'extraction: ' + reason; return
    cmd = ['goto-cc', '-DVP_CBMC'] + ['-D' + x for x in ob.defines] + inc + cflags() + ['--function', ob.entry, VERIF + '/proofs/' + ob.file, '-o', d + '/a.gb']
    rc, o, e = sh(cmd, 120); r.cmds.append(' '.join(cmd))
    if rc: r.reason = 'goto-cc: ' + (e + o)[-2000:]; return
    gb = d + '/a.gb'
    if ob.enforce or ob.replace or ob.loops:
        cmd = ['goto-instrument', '--dfcc', ob.entry]
        if ob.enforce: cmd += ['--enforce-contract', ob.enforce]
        for x in ob.replace: cmd += ['--replace-call-with-contract', x]
        if ob.loops: cmd += ['--apply-loop-contracts']
        cmd += [gb, d + '/b.gb']; gb = d + '/b.gb'
        rc, o, e = sh(cmd, 120); r.cmds.append(' '.join(cmd))
        if rc: r.reason = 'goto-instrument: ' + (e + o)[-2000:]; return
    cmd = ['cbmc', gb, '--json-ui', '--slice-formula', '--drop-unused-functions'] + list(ob.flags) + list(ob.solver)
    if ob.unwind: cmd += ['--unwind', str(ob.unwind)]
    if ob.unwindset: cmd += ['--unwindset', ob.unwindset]
    rc, o, e = sh(cmd, ob.timeout); r.cmds.append(' '.join(cmd))
    if rc == -9: r.reason = 'cbmc: ' + e; return
    try: js = json.loads(o)
    except ValueError: r.reason = 'cbmc: no result: ' + (e + o)[-1500:]; return
    props = None; nobody = []; msgs = []
    for x in js:
        if 'result' in x: props = x['result']
        t = x.get('messageText', '')
        if t: msgs.append(t)
        m = re.search(r'no body for (?:function|callee) (\S+)', t)
        if m: nobody.append(m.group(1).strip("'`\""))
        m = re.search(r'Runtime Solver: ([\d.e-]+)s', t) or re.search(r'Runtime decision procedure: ([\d.e-]+)s', t)
        if m: r.solver_s += float(m.group(1))
    for p in props or []:                        # reported as a failed property when the call is reachable
        m = re.search(r'\.no-body\.(\S+)$', p['property'])
        if m and p['status'] == 'FAILURE': nobody.append(m.group(1))
    nobody = sorted(set(x for x in nobody if x not in ob.allow_nobody and not x.startswith('nondet_') and not x.startswith('__CPROVER')))
    if nobody: r.reason = 'the code now calls functions without a contract here: ' + ', '.join(nobody); return
    if props is None: r.reason = 'cbmc: ' + ' | '.join(msgs[-4:])[-1500:]; return
    vacuous = []; unknown = []; exceeded = None
    for p in props:
        desc = p.get('description', ''); st = p['status']
        if desc.startswith('VPCOVER'):
            if st == 'SUCCESS': vacuous.append(desc)
            else: r.covers += 1
            continue
        if desc.startswith('recursion unwinding') or desc.startswith('unwinding assertion'):
            if st != 'SUCCESS':
                if not ob.bounded: exceeded = 'bound exceeded: ' + desc + ' in ' + str(p.get('sourceLocation', {}).get('function'))
                continue
        if desc.startswith('undefined function should be unreachable') and st != 'SUCCESS':
            r.reason = 'a function without a contract here is called'; return
        r.n += 1
        if st == 'SUCCESS': r.ok += 1
        elif st == 'FAILURE':
            sl = p.get('sourceLocation', {})
            r.failed.append({'obligation': p['property'], 'description': desc, 'file': sl.get('file'), 'line': sl.get('line'), 'function': sl.get('function')})
        else: unknown.append('cbmc status %s for %s' % (st, desc))
    # the frame of an inserted loop contract is a proof aid, not part of a property: a new local in the loop is no violation
    if ob.inject and r.failed and all(re.search(r'\.(assigns|frees)\.\d+$', f['obligation']) or 'dynamic allocation is allowed' in f['description'] for f in r.failed):
        r.reason = 'the loop now changes more than its contract says: ' + r.failed[0]['description'] + ' in ' + str(r.failed[0]['function']); r.failed = []; return
    # lists and arrays are abstract in these proofs: code that walks one itself is outside what the contracts describe
    direct = [f for f in r.failed if f['description'].startswith('dereference failure') and
              (re.search(r'->(pdata|len)\b', f['description']) or ob.file in ('spy.c', 'cleanup.c') and re.search(r'->(next|data)\b', f['description']))]
    if direct: r.reason = 'the code now reads a container whose contents are abstract here: ' + direct[0]['description']; r.failed = []; return
    if exceeded and not r.failed: r.reason = exceeded; return     # a failure found within the bound is one all the same
    if unknown and not r.failed: r.reason = unknown[0]; return
    if vacuous and not r.failed: r.reason = 'vacuous: not reachable: ' + '; '.join(vacuous); return
    if r.n == 0: r.reason = 'no obligations were generated'; return
    r.status = 'failed' if r.failed else 'proved'
    if r.failed:
        f = r.failed[0]
        rc, o, e = sh(cmd[:1] + [c for c in cmd[1:] if c != '--json-ui'] + ['--trace', '--property', f['obligation']], ob.timeout)
        i = o.find('Trace for'); r.trace = o[i:][-20000:] if i >= 0 else None

# ---------------------------------------------------------------- native side
def native_objects(scratch, sanitize=True):
    """compile every daemon source (except main) of the current tree; returns (objs, error)"""
    srcs = []
    for sub in ('monitoring', 'handling', 'algorithm', 'config', 'utils'):
        for f in sorted(os.listdir(SRC + '/' + sub)):
            if f.endswith('.c'): srcs.append(SRC + '/' + sub + '/' + f)
    d = scratch + '/obj'; os.makedirs(d, exist_ok=True)
    flags = ['-g', '-O1', '-w', '-U_FORTIFY_SOURCE'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment'] if sanitize else [])
    def one(s):
        o = d + '/' + os.path.basename(s)[:-2] + '.o'
        rc, out, err = sh(['gcc'] + flags + cflags() + ['-c', s, '-o', o], 120)
        return o, (err if rc else '')
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, srcs))
    errs = [e for o, e in res if e]
    return [o for o, e in res], flags, (errs[0] if errs else '')

def run_native(prop, scratch, seed, cases, spec):
    """returns dict(status= ok|fail|error, output, cmd, cases)"""
    src = VERIF + '/native/' + spec.get('file', prop + '.c')
    objs, flags, err = native_objects(scratch)
    if err: return {'status': 'error', 'output': 'the tree does not compile: ' + err[-1500:]}
    for x in spec.get('drop', ()): objs = [o for o in objs if os.path.basename(o) != x + '.o']
    exe = scratch + '/native_' + prop
    libs = subprocess.run(['pkg-config', '--libs', 'glib-2.0'], capture_output=True, text=True).stdout.split()
    cmd = ['gcc'] + flags + ['-DVP_NATIVE'] + cflags() + ['-I' + VERIF + '/native', src] + objs + ['-o', exe] + \
          ['-Wl,--wrap=' + w for w in spec.get('wrap', ())] + libs + ['-lm']
    rc, o, e = sh(cmd, 200)
    if rc: return {'status': 'error', 'output': 'native driver: ' + e[-2000:], 'cmd': ' '.join(cmd)}
    env_cmd = ['env', 'ASAN_OPTIONS=detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1' % spec.get('leaks', 1), 'UBSAN_OPTIONS=print_stacktrace=0', 'G_SLICE=always-malloc', 'G_DEBUG=']
    rd = scratch + '/run'; os.makedirs(rd, exist_ok=True)
    rc, o, e = sh(env_cmd + [exe, str(seed), str(cases)], spec.get('timeout', 120), cwd=rd)
    out = (o[-6000:] + '\n' + e[-6000:]).strip()
    m = re.search(r'OK cases=(\d+) checks=(\d+)', o)
    if rc == 0 and m: return {'status': 'ok', 'cases': int(m.group(1)), 'checks': int(m.group(2)), 'cmd': ' '.join(cmd)}
    if rc == -9: return {'status': 'hang' if spec.get('hang_fails', True) else 'error', 'output': 'timeout: ' + out, 'cmd': ' '.join(cmd), 'seed': seed}
    return {'status': 'fail', 'output': out, 'cmd': ' '.join(cmd), 'seed': seed, 'rc': rc}

# ---------------------------------------------------------------- verdict
def known_findings(prop):
    p = VERIF + '/known-findings.txt'; r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def main(argv):
    import obligations
    prop = argv[1]; tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = obligations.PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return decide(prop, tier, seed, spec, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(prop, tier, seed, spec, scratch, t0):
    obs = [o for o in spec['obligations'] if tier == 'thorough' or not getattr(o, 'thorough_only', False)]
    ncases = spec.get('native', {}).get('cases', (2000, 40000))[1 if tier == 'thorough' else 0]
    with ThreadPoolExecutor(8) as ex:
        fut = [ex.submit(run_ob, o, scratch) for o in obs]
        nat = ex.submit(run_native, prop, scratch, seed, ncases, spec['native']) if 'native' in spec else None
        results = [f.result() for f in fut]
        native = nat.result() if nat else {'status': 'none'}
    failed = [r for r in results if r.status == 'failed']
    undecided = [r for r in results if r.status == 'undecided']
    proved = [r for r in results if r.status == 'proved']
    for r in results:
        print('%-9s %-58s %4d/%-4d obligations %6.1fs %s' % (r.status, r.ob.name + (' [bounded: %s]' % r.ob.bounded if r.ob.bounded else ''), r.ok, r.n, r.wall, r.reason[:300].replace('\n', ' ')))
        for f in r.failed[:6]: print('          failed: %s: %s (%s:%s %s)' % (f['obligation'], f['description'], f['file'], f['line'], f['function']))
    print('native    %s %s' % (native['status'], '%s cases, %s runtime checks' % (native.get('cases'), native.get('checks')) if native['status'] == 'ok' else native.get('output', '')[:1500]))
    nfail = native['status'] in ('fail', 'hang')
    violation = bool(failed) or nfail
    level = 'proof' if not undecided and not any(r.ob.bounded for r in proved) else 'other'
    if any(r.status == 'proved' and not r.ob.bounded for r in results) and not undecided: level = 'proof'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': sum(r.n for r in results if not r.ob.bounded and r.status != 'undecided'),
            'discharged': sum(r.ok for r in results if not r.ob.bounded and r.status != 'undecided'),
            'checker_cmd': 'python3 lib/run.py %s %s' % (prop, tier),
            'trusted_base': spec.get('trusted', []) + TRUSTED,
            'backend': 'CBMC 6.11 (%s)' % ', '.join(sorted(set(' '.join(r.ob.solver) or 'SAT/MiniSat' for r in results))),
            'functions_under_contract': sorted(set(f for r in proved if not r.ob.bounded for f in r.ob.function.split(','))),
            'bounded_obligations': sum(r.n for r in results if r.ob.bounded),
            'bounded': [{'name': r.ob.name, 'bound': r.ob.bounded, 'obligations': r.n, 'discharged': r.ok} for r in results if r.ob.bounded],
            'undecided': [{'name': r.ob.name, 'reason': r.reason[:500]} for r in undecided],
            'bundles': [{'name': r.ob.name, 'function': r.ob.function, 'mode': 'dfcc contract' if r.ob.enforce else 'harness contract', 'status': r.status,
                         'obligations': r.n, 'discharged': r.ok, 'reachability_guards': r.covers, 'wall_s': round(r.wall, 2), 'solver_s': round(r.solver_s, 3)} for r in results],
            'solver_s': round(sum(r.solver_s for r in results), 3),
            'runtime_contract_checks': {k: native.get(k) for k in ('status', 'cases', 'checks')},
            'explanation': spec.get('explanation', '') + (' Undecided bundles: the bounded runtime check of the same contract stood in for them in this run.' if undecided else ''),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)
    for key, text in known_findings(prop): print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if violation:
        rp = VERIF + '/evidence/replay-%s.txt' % prop
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for r in failed:
                f.write('\nbundle %s (%s)\n' % (r.ob.name, r.ob.function))
                for x in r.failed: f.write('failed obligation %(obligation)s: %(description)s at %(file)s:%(line)s in %(function)s\n' % x)
                f.write('reproduce: ' + ' && '.join(r.cmds) + '\n')
                if r.trace: f.write('verifier counterexample (trace, end):\n' + r.trace + '\n')
            if nfail:
                f.write('\nfailing input found on the real code (seed %s): build with\n%s\nand run it with arguments %s %s\n%s\n' % (native.get('seed'), native.get('cmd'), native.get('seed'), ncases, native.get('output')))
            else:
                f.write('\nno failing input found on the real code: %s\n' % json.dumps(native)[:3000])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if nfail else ' no-failing-input-found'))
        return 1
    return 0

TRUSTED = ['CBMC 6.11 (goto-cc front end, goto-instrument DFCC, symbolic execution, SAT/SMT back end)',
           'environment contracts of GLib, libc and system calls in /verif/lib and /verif/proofs',
           'gcc and CBMC agree on the meaning of the C code; LP64']
