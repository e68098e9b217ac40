#!/usr/bin/env python3
"""cov.py SECS [HARNESS...] - lines and branches of the repository that the quick checks never reach (development aid, not a check)."""
import glob, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
secs = sys.argv[1]
for h in sys.argv[2:] or list(check.HARNESS):
    bdir = tempfile.mkdtemp(prefix='cov_', dir='/tmp'); check.scratch()
    c = check.HARNESS[h]; c['flags'] = c.get('flags', []) + ['-fprofile-instr-generate', '-fcoverage-mapping', '-mllvm', '-runtime-counter-relocation']
    c['link'] = c.get('link', []) + ['-fprofile-instr-generate']
    exe = check.build(h, bdir); check.prep(h, bdir)
    for p, d in check.PROPS.items():
        if h not in d['harness']: continue
        e = check.env_for(bdir); e['LLVM_PROFILE_FILE'] = bdir + '/c%p%c.profraw'
        r = subprocess.run([exe, '--prop', p, '--seed', '1', '--secs', secs, '--cases', '2000000', '--out', bdir + '/out.json', '--replay-dir', bdir, '--jobs', '6', '--hang', '60000'], env=e, cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(h, p, r.returncode, file=sys.stderr)
    raws = glob.glob(bdir + '/*.profraw')
    open(bdir + '/raws', 'w').write('\n'.join(raws))
    subprocess.run(['llvm-profdata', 'merge', '--failure-mode=all', '-sparse', '-f', bdir + '/raws', '-o', bdir + '/m.profdata'])
    src = [f for f in glob.glob(check.REPO + '/*/*.cpp') + glob.glob(check.REPO + '/*/*.h')]
    o = subprocess.run(['llvm-cov', 'show', exe, '-instr-profile', bdir + '/m.profdata', '--show-branches=count', '--show-expansions=0', '--show-instantiations=0'] + src, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode('latin-1')
    open('/tmp/cov_%s.txt' % h, 'w').write(o)
    shutil.rmtree(bdir, ignore_errors=True)
    for d in check.SCRATCH: shutil.rmtree(d, ignore_errors=True)
    check.SCRATCH.clear()
