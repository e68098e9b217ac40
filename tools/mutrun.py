#!/usr/bin/env python3
"""mutrun.py HARNESS SECS JOBS PROP... - one build of a harness against VERIF_REPO, then the properties one by one.  Last line: RESULT killed|survived|nobuild [by]."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
h, secs, jobs = sys.argv[1:4]
bdir = tempfile.mkdtemp(prefix='mutrun_', dir='/tmp'); check.scratch()
try:
    try: exe = check.build(h, bdir)
    except SystemExit: print('RESULT nobuild'); sys.exit(0)
    check.prep(h, bdir)
    res = 'RESULT survived'
    for p in sys.argv[4:]:
        r = subprocess.run([exe, '--prop', p, '--seed', '1', '--secs', secs, '--cases', '2000000', '--out', bdir + '/out.json', '--replay-dir', bdir, '--jobs', jobs, '--hang', '10000'], env=check.env_for(bdir), cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1: res = 'RESULT killed ' + p; break
        if r.returncode: res = 'RESULT error ' + p; break
    print(res)
finally:
    shutil.rmtree(bdir, ignore_errors=True)
    for d in check.SCRATCH: shutil.rmtree(d, ignore_errors=True)
