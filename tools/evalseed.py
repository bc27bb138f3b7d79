#!/usr/bin/env python3
"""Runs the checks against the planted bugs, each in its own copy of /repo.   evalseed.py [IDs...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(d for d in os.listdir(V + '/seeded') if os.path.isdir(V + '/seeded/' + d))
res = {}
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    c = '/tmp/evalseed/' + i
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs('/tmp/evalseed', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', c])
    subprocess.check_call(['git', '-C', c, 'checkout', '-q', '--', '.'])
    subprocess.check_call(['git', '-C', c, 'apply', d + '/patch.diff'])
    t = time.time()
    r = subprocess.run([V + '/run.sh', prop, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, DELYNOI_REPO=c, VERIF_SEED='1'))
    first = [l for l in r.stdout.splitlines() if l.startswith('scenario ')][:1]
    print(i, prop, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), first or r.stdout[-300:], flush=True)
    shutil.rmtree(c, ignore_errors=True)
