#!/usr/bin/env python3
"""Planted-bug bench. usage: seedtool.py make SPECFILE... | test [-c] ID... (-c: also run the property's check)
A spec file is python: S(id, prop, needs, breaks, [(file, old, new)...], demo_cpp)"""
import os, subprocess, sys, json, glob, re, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); R = '/tmp/seedrepo' # a scratch clone
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -w -std=gnu++11 %s -IDotNetLibrary/include -IDotNetLibrary -IPlatformSupport -IDotNetLibrarySupport "$d/demo.cpp" -o "$t/demo" -L_build -lDotNetLibrary -lDotNetLibrarySupport -lPlatformSupport -Wl,-rpath,"$PWD/_build" || exit 99
timeout 60 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    if not os.path.isdir(R): sh('git clone -q /repo ' + R)
    sh('git -C %s checkout -q -- . && git -C %s pull -q' % (R, R)); return build()
def build(): return sh('cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/skip-integration.cmake && ninja -C {0}/_build'.format(R))
def tests():
    if build().returncode: return 'build failed'
    t = R + '/_build/DotNetLibraryTests'; n = 0
    for tz, f in (('UTC0', '-DateTimeTests.IsDaylightSavingTimeTest'), ('EST5EDT,M3.2.0,M11.1.0', 'DateTimeTests.IsDaylightSavingTimeTest')):
        m = re.search(r'PASSED  \] (\d+) test', sh('while ! python3 -c "import time,sys;sys.exit(not 0.05<time.time()%%1<0.8)"; do sleep 0.01; done; TZ=%s timeout 60 %s --gtest_filter=%s' % (tz, t, f)).stdout); n += int(m.group(1)) if m else 0
    return '%d passed, %d failed' % (n, 434 - n)
def clean(): sh('git -C /tmp/seedrepo checkout -- .')
def S(id, prop, needs, breaks, edits, demo, flags=''):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True); clean()
    for f, old, new in edits:
        p = R + '/' + f; s = open(p, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        assert s.count(old) == 1, (id, f, old, s.count(old)); open(p, 'w', newline='').write(s.replace(old, new))
    diff = sh('git -C /tmp/seedrepo diff').stdout; clean()
    removed = 0
    for f, old, new in edits:
        bl = sh('git -C /tmp/seedrepo blame -s ' + f).stdout.splitlines(); src = [x.split(') ', 1)[-1] for x in bl]
    open(d + '/patch.diff', 'w').write(diff)
    # original lines only
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            n += 1; b = sh('git -C /tmp/seedrepo blame -s -L %d,%d %s' % (n, n, cur)).stdout
            if b.startswith('^'): removed += 1
            else: print(id, 'WARN touches own line:', b.strip()[:120])
        elif l.startswith(' '): n += 1
    if not removed: # does not count as a planted bug: keep it beside the others, in the bench
        print(id, 'changes no original line: bench'); n = V + '/bench/' + id; sh('mkdir -p %s/bench; rm -rf %s; mv %s %s' % (V, n, d, n)); d = n
        open(d + '/patch.diff', 'w').write(diff)
    else: sh('rm -rf %s/bench/%s' % (V, id))
    open(d + '/demo.cpp', 'w').write('#include "DotnetTypes.h"\n#include "DotNetLibrarySupport.h"\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <math.h>\n#include <time.h>\n#include <wchar.h>\n#include <unistd.h>\nusing namespace DotnetLibrary;\n#define CHECK(c) do { if (!(c)) { printf("FAILED %s\\n", #c); return 1; } } while (0)\n' + demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write(DEMO % flags); os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('made', id)
def test(id, check):
    d = V + '/seeded/' + id
    if not os.path.isdir(d): d = V + '/bench/' + id
    prop = json.load(open(d + '/meta.json'))['property']; clean()
    build(); r0 = sh('bash %s/demo.sh' % d, cwd=R)
    a = sh('git -C /tmp/seedrepo apply %s/patch.diff' % d)
    if a.returncode: print(id, 'DOES NOT APPLY'); return False
    try:
        t = tests()
        r1 = sh('bash %s/demo.sh' % d, cwd=R); c = ''
        ok = r0.returncode == 0 and r1.returncode not in (0, 99) and t == '434 passed, 0 failed'
        if check:
            t0 = time.time(); k = sh('./check.py %s --tier quick' % prop, cwd=V, env=dict(os.environ, VERIF_REPO=R)); caught = k.returncode == 1 and 'VIOLATION property=' + prop in k.stdout
            c = 'CAUGHT' if caught else 'MISSED rc=%d' % k.returncode; c += ' %.0fs ' % (time.time() - t0) + ' '.join(re.findall(r'VIOLATION.*', k.stdout)[:1])[:160]
    finally:
        clean()
    print(id, prop, 'ok' if ok else 'BAD', 'clean=%d bug=%d tests=[%s] %s' % (r0.returncode, r1.returncode, t, r1.stdout.strip()[-120:]), c, flush=True)
    return ok
def Rq(id, props, edits): # an edit that keeps the behaviour
    if WANT and id not in WANT: return
    clean()
    for f, old, new in edits:
        p = R_ + '/' + f; s = open(p, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        if s.count(old) != 1: print(id, 'EDIT DOES NOT FIT', f, s.count(old), repr(old[:60])); clean(); return
        open(p, 'w', newline='').write(s.replace(old, new))
    try:
        t = tests()
        for prop in props.split():
            t0 = time.time(); k = sh('./check.py %s --strict --tier quick' % prop, cwd=V, env=dict(os.environ, VERIF_REPO=R_))
            print(id, prop, t, 'QUIET' if k.returncode == 0 else 'rc=%d %s' % (k.returncode, ' | '.join(x for x in k.stdout.splitlines() if 'VIOL' in x or 'UNK' in x or 'fail' in x.lower())[:300]), '%.0fs' % (time.time() - t0), flush=True)
    finally: clean()
if __name__ == '__main__':
    x = setup()
    if x.returncode: print(x.stdout[-1000:]); sys.exit(1)
    if sys.argv[1] == 'quiet': # quiet SPECFILE [ID...]
        R_ = R; WANT = sys.argv[3:]
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], 'exec'), dict(globals(), R=globals()['Rq']))
    elif sys.argv[1] == 'make':
        for f in sys.argv[2:]: exec(open(f).read())
    else:
        a = sys.argv[2:]; c = '-c' in a; ids = [x for x in a if x != '-c'] or sorted(os.path.basename(x) for x in glob.glob(V + '/seeded/*') + glob.glob(V + '/bench/*'))
        for i in ids: test(i, c)
        sh('bash /opt/vp/build.sh')
