#!/usr/bin/env python3
"""Decide one property: encode /repo's current C++ sources (LLVM IR), execute the property's harness
symbolically (engine/vsym), replay every counterexample natively, write evidence/<ID>.json.

usage: check.py <ID> [--tier quick|thorough] [--strict] [--only ENTRY] [--keep]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import copy, sys, os, re, json, subprocess, tempfile, shutil, hashlib, time, threading, signal, glob
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build'); CACHE = os.path.join(BUILD, 'cache')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
T0 = time.time()
INC = ['-I' + os.path.join(REPO, d) for d in ('DotNetLibrary/include', 'DotNetLibrary', 'PlatformSupport', 'DotNetLibrarySupport')]
BCFLAGS = ['-w', '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-g', '-fno-discard-value-names', '-emit-llvm', '-c']
NATFLAGS = ['-w', '-std=gnu++11', '-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off', '-c']
ASAN = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=16:abort_on_error=0:exitcode=99:handle_segv=1:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0:symbolize=0'

def say(*a):
    print(*a, flush=True)

def sources():
    txt = open(os.path.join(REPO, 'DotNetLibrary/CMakeLists.txt')).read()
    m = re.search(r'add_library\s*\(\s*DotNetLibrary\s+(?:SHARED|STATIC)?(.*?)\)', txt, re.S)
    names = [n for n in (m.group(1).split() if m else []) if n.endswith('.cpp') and 'dllmain' not in n]
    if not names:
        names = ['src/' + os.path.basename(p) for p in sorted(glob.glob(os.path.join(REPO, 'DotNetLibrary/src/*.cpp')))]
    s = [os.path.join(REPO, 'DotNetLibrary', n) for n in names]
    for extra in sorted(glob.glob(os.path.join(REPO, 'DotNetLibrary/src/*.cpp'))):
        if extra not in s and os.path.basename(extra) != 'dllmain.cpp':
            s.append(extra)
    s += [p for d in ('PlatformSupport', 'DotNetLibrarySupport') for p in sorted(glob.glob(os.path.join(REPO, d, '*.cpp'))) if not p.endswith('dllmain.cpp')]
    return [p for p in s if os.path.exists(p)]

def treehash():
    h = hashlib.sha256()
    fs = []
    for d in ('DotNetLibrary', 'PlatformSupport', 'DotNetLibrarySupport'):
        for r, _, f in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, x) for x in f if x.endswith(('.cpp', '.h', '.txt', '.hpp', '.inc', '.c'))]
    for p in sorted(fs):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(' '.join(BCFLAGS + NATFLAGS + INC).encode())
    h.update(open(os.path.join(HERE, 'models/libc.c'), 'rb').read())
    return h.hexdigest()[:24]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildError(Exception):
    pass

def must(cmd):
    r = run(cmd)
    if r.returncode:
        raise BuildError('command failed: ' + ' '.join(cmd) + '\n' + r.stdout[-3000:])

def ensure_engine():
    r = run(['make', '-C', os.path.join(HERE, 'engine'), '-j4'])
    if r.returncode:
        raise BuildError(r.stdout[-3000:])

def libdir():
    """bitcode + native objects of the library for the current tree (content addressed)"""
    d = os.path.join(CACHE, treehash())
    if os.path.exists(os.path.join(d, 'done')):
        os.utime(d)
        return d
    os.makedirs(CACHE, exist_ok=True)
    olds = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE)), key=os.path.getmtime)
    for o in olds[:-6]:
        shutil.rmtree(o, ignore_errors=True)
    t = tempfile.mkdtemp(prefix='lib-', dir=CACHE)
    jobs = []
    srcs = sources()
    for i, s in enumerate(srcs):
        b = '%02d_%s' % (i, os.path.basename(s)[:-4])
        jobs.append(['clang++'] + BCFLAGS + INC + [s, '-o', os.path.join(t, b + '.bc')])
        jobs.append(['g++'] + NATFLAGS + INC + ['-fPIC', s, '-o', os.path.join(t, b + '.o')])
    jobs.append(['clang', '-w', '-O1', '-g', '-fno-builtin', '-emit-llvm', '-c', '-Xclang', '-disable-llvm-passes', os.path.join(HERE, 'models/libc.c'), '-o', os.path.join(t, 'libcmodel.bc')])
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(must, j) for j in jobs]:
            f.result()
    bcs = sorted(glob.glob(os.path.join(t, '*.bc')))
    must(['llvm-link-18', '-o', os.path.join(t, 'lib.all'), *bcs])
    open(os.path.join(t, 'done'), 'w').write('ok')
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return d

META = re.compile(r"^\s*ENTRY\(\s*(\w+)\s*\)(?:.*?//@\s*(.*))?.*$", re.M)

class Entry:
    def __init__(self, name, opts, tier):
        self.name = name
        o = dict(x.split('=', 1) for x in opts.split() if '=' in x)
        pick = lambda k, d: o.get(('t' if tier == 'thorough' else 'q') + k, o.get(k, d))
        self.shards = int(pick('shards', '1'))
        self.timeout = float(pick('tmo', '45' if tier == 'quick' else '400'))
        self.qtimeout = int(pick('qt', '8000' if tier == 'quick' else '60000'))
        self.steps = int(pick('steps', '3000000'))
        self.samples = int(pick('samples', '3'))
        self.skip = o.get('tier') == 'thorough' and tier == 'quick'
        self.cost = float(pick('cost', '1'))
        self.fn = 'E_' + name; self.again = pick('again', '1') != '0'; self.twice = pick('twice', '0') != '0'
    def variant(self, suffix, fn):
        h = copy.copy(self); h.name += suffix; h.fn = fn + self.fn[1:]; h.cost = self.cost / 1000 # after the entries proper
        return h

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick'); strict = False; only = None; keep = False; verbose = False; pid = None
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--strict': strict = True
        elif x == '--only': only = a.pop(0)
        elif x == '--keep': keep = True
        elif x == '-v': verbose = True
        else: pid = x
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hp = os.path.join(HERE, 'harness', pid + '.cpp')
    try:
        ensure_engine()
        lib = libdir()
    except BuildError as e:
        say('BUILD-FAILED', e)
        return 2
    work = tempfile.mkdtemp(prefix='vsym-%s-' % pid)
    try:
        return decide(pid, hp, tier, seed, lib, work, strict, only, verbose)
    except BuildError as e:
        say('BUILD-FAILED', e)
        return 2
    finally:
        if keep: say('kept', work)
        else: shutil.rmtree(work, ignore_errors=True)

def u(v, w=64):
    return int(v) & ((1 << w) - 1)

class Native:
    """the same harness linked against an AddressSanitizer build of the real sources"""
    def __init__(self, hp, lib, work, entries, wraps, kind='', extra=[]):
        self.work = work; self.exe = os.path.join(work, 'native' + kind); self.n = 0
        inc = os.path.join(work, 'entries.inc')
        with open(inc, 'w') as f:
            for e in entries: f.write('extern "C" void E_%s(void); extern "C" void W_%s(void); extern "C" void X_%s(void);\n' % (e, e, e))
            f.write('static struct { const char *name; void (*fn)(void); } entries[] = {%s};\n' % ','.join('{"%s",E_%s},{"%s~again",W_%s},{"%s~twice",X_%s}' % (e, e, e, e, e, e) for e in entries))
        ho, no = os.path.join(work, 'h%s.o' % kind), os.path.join(work, 'n%s.o' % kind)
        cmds = [['g++'] + NATFLAGS + extra + INC + ['-I' + os.path.join(HERE, 'harness'), hp, '-o', ho],
                ['g++'] + NATFLAGS + ['-I' + work, os.path.join(HERE, 'harness/native.cpp'), '-o', no]]
        objs = sorted(glob.glob(os.path.join(lib, '*.o')))
        if extra: # the library once more with these flags
            objs = [os.path.join(work, '%02d%s.o' % (i, kind)) for i, _ in enumerate(sources())]
            cmds += [['g++'] + NATFLAGS + extra + INC + ['-fPIC', x, '-o', o] for x, o in zip(sources(), objs)]
        with ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(must, c) for c in cmds]: f.result()
        w = []
        for x in wraps:
            w += ['-Wl,--wrap=' + x, '-Wl,--defsym=__wrap_%s=vsm_%s' % (x, x)]
        must(['g++', '-fsanitize=address,undefined', '-o', self.exe, no, ho] + objs + w + ['-lm', '-ldl'])
    def replay(self, entry, vals, tier, alarm=20, asan='', fill=None):
        self.n += 1
        vf = os.path.join(self.work, 'v%d.%d.txt' % (self.n, threading.get_ident()))
        with open(vf, 'w') as f:
            for n, v in vals: f.write('%s %d\n' % (n, u(v)))
        env = dict(os.environ, ASAN_OPTIONS=ASAN + asan, LC_ALL='C', TZ='UTC')
        if fill is not None: env['VS_FILL'] = str(fill)
        try:
            r = subprocess.run([self.exe, entry, vf, '1' if tier == 'thorough' else '0', str(alarm)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=alarm + 20, cwd=self.work)
            out, err, rc = r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace'), r.returncode
        except subprocess.TimeoutExpired:
            out, err, rc = '', 'timeout', -signal.SIGALRM
        return out, err, rc
    @staticmethod
    def symptom(out, err, rc):
        m = re.search(r'^CHECK-FAILED (.*)$', out, re.M)
        if m: return 'check failed: ' + m.group(1)
        m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
        if m: return 'AddressSanitizer ' + m.group(1)
        if 'value-returning function without' in err: return 'end of a function that returns a value'
        if 'UNCAUGHT-EXCEPTION' in out: return 'uncaught exception'
        if rc == -signal.SIGALRM: return 'does not terminate'
        if rc < 0: return 'killed by signal %d' % -rc
        return None

def known_ids(pid):
    p = os.path.join(HERE, 'known_findings.txt'); r = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3).strip()
    return r

def decide(pid, hp, tier, seed, lib, work, strict, only, verbose):
    src = open(hp).read()
    ents = [Entry(m.group(1), m.group(2) or '', tier) for m in META.finditer(src)]
    allnames = [e.name for e in ents]
    ents += [e.variant('~again', 'W') for e in ents if e.again] + [e.variant('~twice', 'X') for e in ents if e.twice or os.environ.get('VERIF_TWICE')]
    ents = [e for e in ents if not e.skip and (only is None or re.search(only, e.name))]
    wraps = []
    for m in re.finditer(r'^//@wrap (.*)$', src, re.M): wraps += m.group(1).split()
    assumptions = [m.group(1).strip() for m in re.finditer(r'^//@assume (.*)$', src, re.M)]
    bounds = [m.group(1).strip() for m in re.finditer(r'^//@bound (.*)$', src, re.M)]
    hb, bc = os.path.join(work, 'h.bc'), os.path.join(work, 'all.bc')
    nat = {}
    def build_native():
        nat['x'] = Native(hp, lib, work, allnames, wraps)
    pool = ThreadPoolExecutor(JOBS)
    natf = pool.submit(build_native)
    must(['clang++'] + BCFLAGS + INC + ['-I' + os.path.join(HERE, 'harness'), hp, '-o', hb])
    must(['llvm-link-18', '-o', bc + '.l', os.path.join(lib, 'lib.all'), hb])
    must(['opt-18', '-passes=sroa,early-cse,simplifycfg', bc + '.l', '-o', bc])
    budget = 520 if tier == 'quick' else 3600
    tasks = [(e, k) for e in ents for k in range(e.shards)]
    tasks.sort(key=lambda t: -t[0].cost)
    def one(t):
        e, k = t
        left = budget - (time.time() - T0)
        if left < 5: return t, None, 'no time left for this entry'
        out = os.path.join(work, '%s.%d.json' % (e.name, k))
        cmd = [os.path.join(BUILD, 'vsym'), bc, '--entry', e.fn, '--tier', '1' if tier == 'thorough' else '0', '--timeout', str(min(e.timeout, left)), '--qtimeout', str(e.qtimeout), '--maxsteps', str(e.steps), '--samples', str(e.samples), '--seed', str(seed), '--out', out]
        if os.environ.get('VSYM_V'): cmd.append('-v')
        if e.shards > 1: cmd += ['--shard', '%d/%d' % (k, e.shards)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=min(e.timeout, left) + 60)
            if verbose: sys.stderr.write(r.stderr)
            if not os.path.exists(out): return t, None, 'engine ended with %d: %s' % (r.returncode, r.stderr[-400:])
        except subprocess.TimeoutExpired:
            return t, None, 'engine exceeded its time'
        return t, json.load(open(out)), None
    results = []; notes = []
    natf.result() if JOBS < 2 else None
    for t, j, err in pool.map(one, tasks):
        if err: notes.append('%s: %s' % (t[0].name, err))
        else: results.append((t[0], t[1], j))
    natf.result(); native = nat['x']
    # --- violations: replay on the real code
    known = known_ids(pid); seenKnown = {}; confirmed = []; unrepro = []
    rdir = os.path.join(BUILD, 'replay', pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    cand = [(e, v) for e, k, j in results for v in j['violations']]
    def rep(ev):
        e, v = ev; last = None
        for b in (None, 255, 1): # memory and stack as they come, or filled
            out, err, rc = native.replay(e.name, v['vals'], tier, alarm=15, asan='' if b is None else ':detect_stack_use_after_return=0:malloc_fill_byte=%d:max_malloc_fill_size=1000000' % b, fill=b)
            s = Native.symptom(out, err, rc); last = (out, err, rc)
            if s: return ev, s, last
        return ev, None, last
    reps = list(pool.map(rep, cand))
    # what depends on uninitialised locals or on running off a function's end may not show in one build: two more
    for kind, extra in (('p', ['-ftrivial-auto-var-init=pattern', '-fsanitize=return', '-fno-sanitize-recover=return']), ('z', ['-ftrivial-auto-var-init=zero', '-O0'])):
        if not reps or any(s for _, s, _ in reps): break
        first = native
        try: native = Native(hp, lib, work, allnames, wraps, kind, extra); reps = list(pool.map(rep, cand))
        except BuildError as x: notes.append('second build: %s' % x)
        native = first
    for (e, v), s, last in reps:
        ids = [k for k in v['known'] if k in known]
        if s is None:
            unrepro.append('%s: %s %s at %s (native run: rc %d %s)' % (e.name, v['kind'], v['label'], v['where'], last[2], last[0].strip().splitlines()[-1:] ) + (' inputs %s' % v['vals'][:30] if verbose else ''))
        elif ids:
            seenKnown[ids[0]] = s
        else:
            confirmed.append((e, v, s, last))
    # --- sampled paths: engine and real code must observe the same values
    samp = [(e, s) for e, k, j in results for s in j['samples']]
    val = 0; mism = []; sampleViol = []
    def vs(es):
        e, s = es
        out, err, rc = native.replay(e.name, s['vals'], tier, alarm=30)
        got = [tuple(l[4:].rsplit(' ', 1)) for l in out.splitlines() if l.startswith('obs ')]
        want = [(n, str(u(v))) for n, v in s['obs']]
        return es, got, want, out, err, rc
    for (e, s), got, want, out, err, rc in pool.map(vs, samp):
        sym = Native.symptom(out, err, rc)
        if sym and (sym.startswith('check') or sym.startswith('Address')):
            if not s.get('known'): sampleViol.append((e, {'kind': 'native', 'label': sym, 'where': e.name, 'vals': s['vals'], 'stack': '', 'known': []}, sym, (out, err, rc)))
        elif got[:len(want)] == want and 'REPLAY-END' in out: val += 1
        else:
            d = next(((a, b) for a, b in zip(want + [('end', '')], got + [('end', '')]) if a != b), None)
            mism.append('%s: engine %s native %s rc %d (%s) vals %s' % (e.name, d and d[0], d and d[1], rc, out.strip().splitlines()[-1:], s['vals'][:12]))
    confirmed += sampleViol
    pool.shutdown()
    # --- evidence
    tot = lambda k: sum(j[k] for _, _, j in results)
    covers = set(c for _, _, j in results for c in j['covers'])
    want = set(re.findall(r'vs_cover\("([^"]+)"\)', src)); 
    if only or any(e.skip for e in []): want = set()
    missing = sorted(want - covers) if only is None else []
    if tier == 'quick':
        tonly = set(re.findall(r'vs_cover\("([^"]+)"\);\s*//@thorough', src)); missing = [m for m in missing if m not in tonly]
    incs = {}
    for e, k, j in results:
        if j['incomplete']: incs.setdefault(e.name, set()).update(j['reasons'])
    for n in notes: incs.setdefault(n.split(':')[0], set()).add(n)
    functions = sorted(set(f for _, _, j in results for f in j['functions'])); externs = sorted(set(f for _, _, j in results for f in j['externs']))
    sol = {}
    for _, _, j in results:
        for k, v in j['solver'].items(): sol[k] = max(sol.get(k, 0), v) if 'max' in k else sol.get(k, 0) + v
    labels = {}
    for e, k, j in results:
        for l, n in j['check_labels'].items(): labels[e.name + '/' + l] = labels.get(e.name + '/' + l, 0) + n
    ppe = {}; spe = {}
    for e, k, j in results: ppe[e.name] = ppe.get(e.name, 0) + j['paths']; spe[e.name] = round(spe.get(e.name, 0) + j['wall'], 2)
    cov = dict(states=tot('paths'), paths_per_entry=ppe, seconds_per_entry=spe, transitions=tot('instructions'), traces_validated_against_impl=val,
               samples=[dict(entry=e.name, inputs={n: v for n, v in s['vals'][:40]}, observed=[o for o in s['obs'] if o[0].startswith('o:')][:20]) for e, s in samp[:6]],
               exhaustive_within_bounds=not incs, entries=[e.name for e in ents],
               path_forks=tot('forks'), pruned_paths=tot('pruned'), property_assertions=tot('checks'), property_assertions_discharged=tot('checks_discharged'), implicit_safety_assertions=tot('implicit_checks'),
               solver=sol, functions_encoded=functions, external_models=externs, assertions=labels, covers_reached=sorted(covers), covers_missing=missing,
               bounds=bounds, not_explored={k: sorted(v) for k, v in incs.items()}, unreproduced_counterexamples=unrepro, engine_native_mismatches=mism)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    # --- report
    for k in sorted(seenKnown): say('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    for m in mism: say('NOTE engine/native mismatch:', m)
    for m in unrepro: say('NOTE not reproduced natively:', m)
    for k, v in sorted(incs.items()): say('NOTE not fully explored: %s: %s' % (k, '; '.join(sorted(v))))
    for m in missing: say('NOTE cover not reached:', m)
    say('%s %s: %d paths, %d assertions (%d discharged) + %d safety assertions, %d solver queries, z3 %.1fs, %d/%d traces validated, %.1fs' % (pid, tier, tot('paths'), tot('checks'), tot('checks_discharged'), tot('implicit_checks'), sol.get('queries', 0), sol.get('time', 0), val, len(samp), time.time() - T0))
    if confirmed:
        seen = set()
        for i, (e, v, s, (out, err, rc)) in enumerate(confirmed):
            if (e.name, v['label'], v['where']) in seen: continue
            seen.add((e.name, v['label'], v['where']))
            p = os.path.join(rdir, '%s.%d.txt' % (e.name, i))
            with open(p, 'w') as f:
                f.write('property %s\nentry %s\nkind %s\nlabel %s\nwhere %s\nstack %s\nnative symptom: %s\ntier %s\ninputs:\n' % (pid, e.name, v['kind'], v['label'], v['where'], v['stack'], s, tier))
                for n, x in v['vals']: f.write('%s %d\n' % (n, u(x)))
                f.write('--- native output (rc %d)\n%s\n%s\n' % (rc, '\n'.join(l for l in out.splitlines() if not l.startswith('obs '))[-2000:], err[-3000:]))
            say('  %s: %s [%s] at %s; native: %s' % (e.name, v['label'], v['kind'], v['where'], s))
            say('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if strict and (mism or unrepro or missing or incs): return 3
    return 0

if __name__ == '__main__':
    sys.exit(main())
