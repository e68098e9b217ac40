#!/usr/bin/env python3
"""matrix.py [ID...] - runs, for each planted bug, the quick check of its property on a scratch copy of /repo with the patch
applied, and prints a table of what caught it (for DESIGN.md).  Reads seeded/; no check does."""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(H + '/seeded'))
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (H, i)))
    d = tempfile.mkdtemp(prefix='mx_', dir='/dev/shm') + '/r'
    shutil.copytree('/repo', d, symlinks=True)
    a = subprocess.run(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (H, i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if a.returncode: print('| %s | DOES NOT APPLY |' % i, flush=True)
    else:
        r = subprocess.run(['python3', H + '/check.py', m['property']], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        t = re.findall(r'^FAILED (\w+)', r.stdout, re.M)
        print('| %s | %s | %s |' % (i, m['property'], {0: 'MISSED', 1: t[0] if t else '?'}.get(r.returncode, 'ERROR %d' % r.returncode)), flush=True)
        for f in re.findall(r'replay=(\S+)', r.stdout):
            if os.path.exists(f): os.remove(f)
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
