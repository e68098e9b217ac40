#!/usr/bin/env python3
"""check.py ID quick|thorough   - decide one property
   check.py --replay FILE       - reproduce a recorded failure
   check.py --list"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from config import HARNESS, PROPS

ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=65536:detect_stack_use_after_return=0:handle_abort=1:detect_odr_violation=0:quarantine_size_mb=16'

# File operations run in memory where possible.
SCRATCH = []
def scratch():
    try:
        v = os.statvfs('/dev/shm')
        if v.f_bavail * v.f_frsize > (1 << 30):
            SCRATCH.append(tempfile.mkdtemp(prefix='verif_', dir='/dev/shm'))
    except OSError:
        pass

def run_all(jobs, bdir):
    procs = [(out, subprocess.Popen(cmd + ['-o', os.path.join(bdir, out)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for cmd, out in jobs]
    res = []
    for out, p in procs:
        o = p.communicate()[0]
        res.append((os.path.join(bdir, out), p.returncode, o.decode(errors='replace')))
    return res

def build(hname, bdir):
    h = HARNESS[hname]
    cov = ['-fsanitize-coverage=inline-8bit-counters,trace-cmp', '-fsanitize-coverage-allowlist=' + HERE + '/lib/allow.txt']
    common = ['-g1', '-std=gnu++17', '-pthread', '-I', REPO, '-I', HERE + '/lib', '-I', HERE + '/harness', '-Wno-everything', '-fno-omit-frame-pointer']
    san = h.get('san', ['-fsanitize=address'])
    opt = h.get('opt', ['-O1'])
    jobs = []
    repo = []
    for pat in h['repo']:
        repo += [os.path.relpath(x, REPO) for x in sorted(glob.glob(os.path.join(REPO, pat)))]
    for f in repo:
        jobs.append((['clang++'] + h.get('repo_flags', []) + opt + common + san + cov + h.get('flags', []) + ['-c', os.path.join(REPO, f)], f.replace('/', '_') + '.o'))
    for f in h['src']:
        jobs.append((['clang++'] + opt + common + h.get('src_san', san) + cov + h.get('flags', []) + ['-c', os.path.join(HERE, 'harness', f)], f + '.o'))
    jobs.append((['clang++', '-O2'] + common + h.get('src_san', san) + h.get('flags', []) + ['-c', HERE + '/lib/pbt.cpp'], 'pbt.o'))
    objs = []
    for out, rc, text in run_all(jobs, bdir):
        if rc:
            sys.stderr.write(text + 'build of %s failed\n' % out)
            sys.exit(3)
        objs.append(out)
    exe = os.path.join(bdir, hname)
    link = ['clang++', '-pthread'] + h.get('src_san', san) + objs + ['-o', exe] + h.get('link', []) + ['-lrt', '-ldl']
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        # The code may depend on more of the repository than listed: offer all of it as a library.
        rest = []
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d not in ('tests', 'test', 'build'))
            rest += [os.path.relpath(os.path.join(root, f), REPO) for f in sorted(files) if f.endswith('.cpp')]
        rest = [f for f in rest if f not in repo and ' main(' not in open(os.path.join(REPO, f), errors='replace').read()]
        lib = [o for o, rc, text in run_all([(['clang++'] + h.get('repo_flags', []) + opt + common + san + cov + h.get('flags', []) + ['-c', os.path.join(REPO, f)], 'lib_' + f.replace('/', '_') + '.o') for f in rest], bdir) if rc == 0]
        ar = os.path.join(bdir, 'librest.a')
        if lib: subprocess.run(['ar', 'rcs', ar] + lib)
        r2 = subprocess.run(['clang++', '-pthread'] + h.get('src_san', san) + objs + ([ar] if lib else []) + ['-o', exe] + h.get('link', []) + ['-lrt', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r2.returncode:
            sys.stderr.write(r.stdout.decode(errors='replace'))
            sys.exit(3)
    return exe

def env_for(bdir):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ASAN
    e['LC_ALL'] = 'C'
    e['VERIF_SCRATCH'] = os.path.join(SCRATCH[0] if SCRATCH else bdir, 'scratch')
    e['VERIF_REPO'] = REPO
    e['VERIF_BDIR'] = bdir
    os.makedirs(e['VERIF_SCRATCH'], exist_ok=True)
    os.chmod(bdir, 0o755)
    os.chmod(os.path.dirname(e['VERIF_SCRATCH']), 0o755)
    os.chmod(e['VERIF_SCRATCH'], 0o777)
    return e

def known(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known-findings.txt')):
            if line.startswith('known: property=%s ' % pid):
                out.append(line[len('known: '):].strip())
    except FileNotFoundError:
        pass
    return out

def prep(hname, bdir):
    pre = HARNESS[hname].get('pre')
    if pre:
        r = subprocess.run(['bash', '-c', pre], cwd=bdir, env=dict(os.environ, REPO=REPO, HERE=HERE))
        if r.returncode:
            sys.exit(3)

def main():
    a = sys.argv[1:]
    if a[:1] == ['--list']:
        print('\n'.join(PROPS)); return 0
    if a[:1] == ['--selftest']:
        return subprocess.run(['clang++', '--version'], stdout=subprocess.DEVNULL).returncode
    bdir = tempfile.mkdtemp(prefix='verif_', dir=os.environ.get('VERIF_TMP', '/tmp'))
    scratch()
    try:
        if a[:1] == ['--replay']:
            head = open(a[1]).read(4096)
            pid = [l.split()[1] for l in head.splitlines() if l.startswith('property ')][0]
            pname = [l.split()[1] for l in head.splitlines() if l.startswith('prop ')][0]
            for hname, cfg in PROPS[pid]['harness'].items():
                exe = build(hname, bdir); prep(hname, bdir)
                r = subprocess.run([exe, '--replay', a[1]], env=env_for(bdir), cwd=bdir)
                if r.returncode != 2:
                    return r.returncode
            return 2
        pid, tier = a[0], (a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        t0 = time.time()
        P = PROPS[pid]
        rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tot = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, discarded=0, unconfirmed_failures=0)
        rules, samples, tests, viol = [], [], [], ''
        for hname, cfg in P['harness'].items():
            exe = build(hname, bdir); prep(hname, bdir)
            secs, cases = cfg[tier]
            out = os.path.join(bdir, 'out.json')
            cmd = [exe, '--prop', pid, '--seed', str(seed), '--secs', str(secs * scale), '--cases', str(cases), '--out', out, '--replay-dir', rdir, '--jobs', str(cfg.get('jobs', 8)), '--hang', str(cfg.get('hang', 20000))]
            r = subprocess.run(cmd, env=env_for(bdir), cwd=bdir)
            if r.returncode not in (0, 1):
                sys.stderr.write('harness %s ended with %d\n' % (hname, r.returncode)); return 3
            d = json.load(open(out))
            for k in tot: tot[k] += d[k]
            rules.append(d['rule']); samples += d['samples']; tests += d['tests']
            if d['violation']:
                viol = d['violation']; break
        for k in known(pid):
            print('KNOWN-FINDING: ' + k)
        ev = dict(property=pid, tier=tier, seed=seed, level=P['level'],
                  coverage=dict(tot, rule=' '.join(rules), samples=samples, tests=tests),
                  assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
        tmp = os.path.join(HERE, 'evidence', pid + '.json.tmp')
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
        if viol:
            print('VIOLATION property=%s replay=%s' % (pid, viol)); return 1
        print('%s %s: held on %d cases (%d distinct non-trivial)' % (pid, tier, tot['evaluations'], tot['distinct_nontrivial']))
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(bdir, ignore_errors=True)
        for d in SCRATCH: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
