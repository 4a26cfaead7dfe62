#!/usr/bin/env python3
"""Mutation bench (development tool; no check uses it): random small edits of the library in a scratch copy, kept when
they compile and pass the unit tests; the checks that encode the edited function must notice.
usage: mutate.py SEED COUNT [FILE-REGEX] -> /tmp/mut/results.SEED.txt"""
import os, re, sys, json, glob, random, subprocess, shutil, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
seed, count = int(sys.argv[1]), int(sys.argv[2]); frx = sys.argv[3] if len(sys.argv) > 3 else '.'
W = '/tmp/mut/w%d' % seed; R = W + '/repo'
os.makedirs(W, exist_ok=True); subprocess.run(['rm', '-rf', R]); subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
subprocess.run(['rm', '-rf', W + '/verif']); shutil.copytree(V, W + '/verif', ignore=lambda d, n: ['.git', 'seeded', 'cache', 'replay'], symlinks=True)
X = W + '/verif'; os.makedirs(X + '/build/cache', exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
b = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/skip-integration.cmake && ninja -C %s/_build' % (R, R, R))
if b.returncode: print(b.stdout[-2000:]); sys.exit(1)
def tests():
    t = '%s/_build/DotNetLibraryTests' % R; d = 'DateTimeTests.IsDaylightSavingTimeTest:DateTimeTests.get_*NowTest'
    return sh('TZ=UTC0 timeout 30 %s --gtest_filter=-%s >/dev/null 2>&1 && TZ=EST5EDT,M3.2.0,M11.1.0 timeout 30 %s --gtest_filter=DateTimeTests.IsDaylightSavingTimeTest >/dev/null 2>&1' % (t, d, t)).returncode
if tests(): print('tests fail on the clean copy')
enc = {}; wall = {}
for f in glob.glob(V + '/evidence/C*.json'):
    e = json.load(open(f)); wall[e['property']] = e['wall_s']; fs = e['coverage']['functions_encoded']
    for x in fs:
        n = re.sub(r'\(.*', '', x.replace('DotnetLibrary::', '')).split()[-1] if '(' in x else x
        enc.setdefault(n, {}).setdefault(e['property'], 0)
    for x in fs: pass
def size(p): return wall[p]
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=a-zA-Z])', '<='), (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+ 1\b', ''), (r'- 1\b', ''), (r'\+ 1\b', '+ 2'), (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1) if len(m.group(1)) < 18 else m.group(0)), (r'\b0\b', '1'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='), (r'!(?=[a-zA-Z(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'UInt64', 'Int64'), (r'Int64', 'Int32'), (r'\(UInt32\) ?', '(Int32) '), (r'^(\s*)(?!return|throw|case|break|default|else|if|for|while|do|[A-Z]\w+\*? \w+( =|;|\())([^{}]*;)\s*$', r'\1;'), (r'^(\s*)(throw [^;]*;)', r'\1;'), (r'>>', '<<'), (r'<<', '>>'), (r' & ', ' | '), (r' % ', ' / '), (r'return (?!;)(?!true|false|null)(.*);', r'return 0;'), (r'if \((.*)\)(\s*\{?)\s*$', r'if (!(\1))\2'), (r'if \((.*)\)(\s*\{?)\s*$', r'if (false && (\1))\2'), (r'startIndex', '0'), (r'\b(get_Length\(\)|length|count|currentLength)\b', r'\1 - 1'), (r'\b(get_Length\(\)|length|count|currentLength)\b', r'\1 + 1')]
files = [f for f in sh('git -C %s ls-files DotNetLibrary/src DotNetLibrary/include PlatformSupport DotNetLibrarySupport' % R).stdout.split() if f.endswith(('.cpp', '.h')) and re.search(frx, f) and 'dllmain' not in f]
rnd = random.Random(seed); pool = []
for f in files:
    fn = None; inc = False; cls = ''
    for i, l in enumerate(open(R + '/' + f, newline='').read().split('\n')):
        l0 = l.rstrip('\r'); st = l0.strip()
        m = re.match(r'\s*(?:struct|class) (?:\w+ )?(\w+)', l0)
        if m: cls = m.group(1)
        m = re.match(r'^\t?(?:[\w:*&<> ]+ )?\*?((?:\w+::)+[~\w]+|CopyChars|my_operator_\w+|Platform\w+)\s*\(', l0) if f.endswith('.cpp') else re.match(r'^\t\t(?:[\w:*&<> ]+[ \t])?([~\w]+)\s*\([^;]*$', l0)
        if m: fn = m.group(1).replace('DotnetLibrarySupport::', 'DotnetLibrarySupport::') if f.endswith('.cpp') else cls + '::' + m.group(1)
        if st.startswith('/*'): inc = True
        if not inc and not st.startswith(('//', '#', '*')) and fn and not re.match(r'^\t?\S.*\)\s*\{?$', l0):
            for k, (a, r) in enumerate(OPS):
                for mm in re.finditer(a, l0):
                    t = l0[:mm.start()] + mm.expand(r) + l0[mm.end():] if isinstance(r, str) else l0[:mm.start()] + r(mm) + l0[mm.end():]
                    if t != l0 and '"' not in l0[:mm.start()]: pool.append((f, i, fn, l0, t))
        if '*/' in st: inc = False
print(len(pool), 'candidates'); out = open('/tmp/mut/results.%d.txt' % seed, 'a')
byfn = {}
for x in pool: byfn.setdefault((x[0], x[2]), []).append(x)
keys = sorted(byfn); n = killed = caught = 0
while n < count:
    k = rnd.choice(keys); f, i, fn, old, new = rnd.choice(byfn[k])
    p = R + '/' + f; s = open(p, newline='').read(); ls = s.split('\n'); ls[i] = new + ('\r' if ls[i].endswith('\r') else ''); open(p, 'w', newline='').write('\n'.join(ls))
    try:
        if sh('ninja -C %s/_build' % R).returncode: continue
        n += 1
        if tests(): killed += 1; continue
        base = fn.split('::')[-1]; ps = set()
        for q in enc:
            if q == fn or q.endswith('::' + fn) or q.endswith(fn): ps |= set(enc[q])
        ps = sorted(ps, key=size); got = None; notes = []
        # the properties anchored to this file first
        anch = {}
        for l in open(V + '/properties.jsonl'):
            d = json.loads(l); anch[d['id']] = f in d['anchors']['files']
        ps = sorted(ps, key=lambda q: (not anch.get(q), wall[q]))
        t0 = time.time()
        for q in ps:
            if time.time() - t0 > 400: notes.append('stopped'); break
            r = sh('./check.py %s' % q, cwd=X, env=dict(os.environ, VERIF_REPO=R, VERIF_TIER='quick'))
            if r.returncode == 1 and 'VIOLATION' in r.stdout: got = q; break
            if r.returncode: notes.append('%s rc=%d %s' % (q, r.returncode, r.stdout[-200:].replace('\n', ' ')))
        if got: caught += 1
        print('%s %s:%d %s\n   - %s\n   + %s\n   %s %s [%.0fs]' % ('caught' if got else 'MISSED', f, i + 1, fn, old.strip(), new.strip(), got or ps, notes, time.time() - t0), file=out, flush=True)
    finally:
        open(p, 'w', newline='').write(s)
print('total %d, killed by tests %d, caught %d of %d' % (n, killed, caught, n - killed), file=out, flush=True); subprocess.run(['rm', '-rf', W])
