#!/usr/bin/env python3
"""seed.py FILE...  - FILE is a python file defining SEEDS: list of dict(id, prop, subs=[(path, old, new)], needs, what, demo, srcs, flags).
Makes /verif/seeded/<id>/, confirms it (builds, stable tests pass, demo ok on clean, fails on patched) and, with --check, runs the check.
seed.py --verify ID... [--check] re-confirms existing ones."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh('git', '-C', R, 'checkout', '--', '.')
DEMO = '''#!/bin/bash
# Exit 0: behaves as it should; anything else: broken.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -g -O1 -w -pthread %s -I. "$D/demo.cpp" %s -o "$T/demo" -lrt -ldl || exit 2
cd "$T" && timeout 60 ./demo
'''
def make(s):
    d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    clean()
    for path, old, new in s['subs']:
        p = os.path.join(R, path); t = open(p, encoding='latin-1', newline='').read()
        crlf = '\r\n' in t
        if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert t.count(old) == 1, (s['id'], path, t.count(old), old)
        open(p, 'w', encoding='latin-1', newline='').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff', '--binary'], stdout=subprocess.PIPE).stdout
    clean()
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(s.get('script') or DEMO % (s.get('flags', '-fsanitize=address'), s.get('srcs', '')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if s.get('demo'): open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
BASE = 'cbbab95'
def ours(patch):
    """Lines the patch removes that are not of the original repository (git blame)."""
    bad = 0; n = 0; f = None; import re
    for l in open(patch, encoding='latin-1', newline='').read().split('\n'):
        if l.startswith('--- a/'):
            f = l[6:].strip(); b = subprocess.run(['git', '-C', R, 'blame', '-s', '-l', 'HEAD', '--', f], stdout=subprocess.PIPE).stdout.decode('latin-1').split('\n')
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if not b[n - 1].lstrip('^').startswith(BASE): bad += 1
            n += 1
        elif l.startswith(' '): n += 1
    return bad
def verify(i, check):
    d = os.path.join(HERE, 'seeded', i); meta = json.load(open(d + '/meta.json'))
    clean()
    r0 = sh('bash', d + '/demo.sh', cwd=R, timeout=300)
    out = {'demo_clean': r0.returncode}
    if ours(d + '/patch.diff'): out['changes_our_lines'] = ours(d + '/patch.diff')
    try:
        a = sh('git', '-C', R, 'apply', d + '/patch.diff')
        if a.returncode: return dict(out, apply=a.stdout.decode())
        t = sh('bash', '/opt/vp/test.sh', '/tmp/seed_out.json')
        ok = set(json.load(open('/tmp/seed_out.json'))['passed']) if os.path.exists('/tmp/seed_out.json') else set()
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok
        out['tests_lost'] = sorted(miss)[:5]
        r1 = sh('bash', d + '/demo.sh', cwd=R, timeout=300)
        out['demo_patched'] = r1.returncode
        out['valid'] = r0.returncode == 0 and r1.returncode not in (0, 2) and not miss
        if r0.returncode or r1.returncode in (0, 2): out['out'] = (r0.stdout[-600:].decode(errors='replace'), r1.stdout[-600:].decode(errors='replace'))
        if check:
            c = sh(sys.executable, 'check.py', meta['property'], 'quick', cwd=HERE, env=dict(os.environ, VERIF_SEED='1'))
            out['caught'] = c.returncode == 1 and ('VIOLATION property=%s' % meta['property']).encode() in c.stdout
            if c.returncode not in (0, 1): out['check_rc'] = c.returncode
    finally:
        clean()
    return out
def main():
    a = sys.argv[1:]; check = '--check' in a; a = [x for x in a if x != '--check']
    ids = []
    if a[:1] == ['--verify']: ids = a[1:] or sorted(os.listdir(HERE + '/seeded'))
    else:
        only = [x[7:] for x in a if x.startswith('--only=')]; a = [x for x in a if not x.startswith('--only=')]
        for f in a:
            g = {}; exec(open(f).read(), g)
            for s in g['SEEDS']:
                if only and s['id'] not in only: continue
                make(s); ids.append(s['id'])
    for i in ids: print(i, json.dumps(verify(i, check)), flush=True)
main()
