#!/usr/bin/env python3
"""Development tool (no check uses it): applies planted bugs one at a time to /repo, runs the check of their property, undoes them.
usage: seedcheck.py [id...]"""
import json, os, subprocess, sys, time
S = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(S))
def sh(*a): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if sh('git', '-C', '/repo', 'status', '--short').stdout.strip(): sys.exit('dirty')
for i in ids:
    prop = json.load(open('%s/%s/meta.json' % (S, i)))['property']
    if not os.path.exists('/verif/checks/%s.py' % prop): print(i, prop, 'no check'); continue
    r = sh('git', '-C', '/repo', 'apply', '%s/%s/patch.diff' % (S, i))
    if r.returncode: print(i, 'DOES NOT APPLY', r.stdout); continue
    try:
        t = time.time(); r = sh('python3', '/verif/checks/%s.py' % prop)
        ok = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
        print(i, prop, 'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), [l[:200] for l in r.stdout.splitlines() if l.startswith(('DETAIL', 'ERROR'))][:1], flush=True)
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
