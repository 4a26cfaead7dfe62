#!/usr/bin/env python3
"""Undo each recorded fix: commit in a scratch clone and run the property's check: it has to report the defect.
usage: fixtool.py [PROP-REGEX]"""
import subprocess, re, sys, os, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); R = '/tmp/fixrepo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
sh('rm -rf /tmp/fixrepo; git clone -q /repo ' + R)
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if not m or not want.search(m.group(1)): continue
    p, c, what = m.groups(); sh('git -C %s reset -q --hard origin/HEAD' % R)
    r = sh('git -C %s revert --no-commit %s' % (R, c))
    if r.returncode: print(p, c, 'DOES-NOT-REVERT', what, flush=True); sh('git -C %s revert --abort; git -C %s reset -q --hard origin/HEAD' % (R, R)); continue
    t = time.time(); k = sh('./check.py %s --tier quick' % p, cwd=V, env=dict(os.environ, VERIF_REPO=R))
    print(p, c, 'REPORTED' if k.returncode == 1 and 'VIOLATION property=' + p in k.stdout else 'MISSED rc=%d' % k.returncode, '%.0fs' % (time.time() - t), what, flush=True)
