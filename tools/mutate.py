#!/usr/bin/env python3
"""mutate.py list | run WORKERS [PATTERN] - syntactic mutants of the sources against the checks (development aid, not a check).
Works on scratch copies; results in /tmp/mut/results.jsonl."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = '/repo'
MAP = [
    (r'^json/', [('h_json', ['J01', 'J02'])]),
    (r'^convert/', [('h_convert', ['C01', 'C02'])]),
    (r'^templates/(fast_find)', [('h_find', ['S01', 'S02'])]),
    (r'^templates/static_mixed_var', [('h_text', ['M01'])]),
    (r'^utf8/utf8_mixed_var', [('h_text', ['M01'])]),
    (r'^templates/shared_lib', [('h_misc', ['L01'])]),
    (r'^templates/detachable_queue', [('h_containers', ['Q01'])]),
    (r'^templates/detachable_list', [('h_containers', ['Q02'])]),
    (r'^templates/detachable_ordered_hash.cpp', [('h_containers', ['H03', 'H01', 'H02', 'K01'])]),
    (r'^templates/detachable_ordered_hash', [('h_containers', ['H01', 'H03', 'H02', 'K01'])]),
    (r'^templates/packed_ordered_hash', [('h_containers', ['H02', 'H03'])]),
    (r'^templates/cache', [('h_containers', ['K01', 'H03'])]),
    (r'^templates/', [('h_containers', ['V01'])]),
    (r'^utf8/utf8_util', [('h_text', ['U01', 'U02', 'M01'])]),
    (r'^utf8/utf8_file_dir', [('h_file', ['F01', 'F02', 'F03', 'F04', 'F05'])]),
    (r'^utf8/utf8_appinfo', [('h_misc', ['A01'])]),
    (r'^environment/', [('h_misc', ['A02'])]),
    (r'^security/', [('h_misc', ['R01'])]),
    (r'^sync/sync_tls', [('h_tls', ['T01', 'T02'])]),
    (r'^sync/sync_mutex', [('h_sync', ['Y01', 'Y05'])]),
    (r'^sync/sync_semaphore', [('h_sync', ['Y02', 'Y05'])]),
    (r'^sync/sync_event', [('h_sync', ['Y03', 'Y05'])]),
    (r'^sync/sync_readwritelock', [('h_sync', ['Y04', 'Y05'])]),
    (r'^sync/sync_sharedmem', [('h_sync', ['Y05'])]),
    (r'^sync/', [('h_sync', ['Y01', 'Y02', 'Y03', 'Y04', 'Y05'])]),
]
def codeLines(t):
    """Yields (lineno, text) of lines compiled on Linux."""
    stack = []; out = []; block = False
    for n, l in enumerate(t.split('\n')):
        s = l.strip()
        if s.startswith('#'):
            d = s[1:].strip()
            if d.startswith('if'):
                win = ('WIN32' in d and not d.startswith('ifndef')) or '__APPLE__' in d or '__sun' in d or 'BSD' in d
                stack.append([False if win else True, win])
            elif d.startswith('elif') and stack: stack[-1][0] = False
            elif d.startswith('else') and stack: stack[-1][0] = True if stack[-1][1] else False
            elif d.startswith('endif') and stack: stack.pop()
            continue
        if all(x[0] for x in stack) and s and not s.startswith('//'): out.append((n, l))
    return out
def mutants(path):
    t = open(os.path.join(REPO, path), encoding='latin-1', newline='').read(); lines = t.split('\n'); res = []
    for n, l in codeLines(t):
        crlf = l.endswith('\r'); body = l.rstrip('\r'); c = body.split('//')[0]
        if '"' in c and 'sprintf' not in c and 'strcmp' not in c: pass
        def add(new, kind):
            if new != body: res.append((n, new + ('\r' if crlf else ''), kind))
        # Not inside string or character literals.
        lit = [False] * (len(c) + 1); q = None; i = 0
        while i < len(c):
            if q:
                lit[i] = True
                if c[i] == '\\': i += 1; lit[min(i, len(c))] = True
                elif c[i] == q: q = None
            elif c[i] in '"\'': q = c[i]; lit[i] = True
            i += 1
        for m in re.finditer(r'<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|<<|>>|->|[<>+\-]|\b\d+\b|\btrue\b|\bfalse\b', c):
            if lit[m.start()]: continue
            o = m.group(0); a, b = c[:m.start()], c[m.end():]
            if o in ('<<', '>>', '->'): continue
            R = []
            if o == '<=': R = ['<']
            elif o == '>=': R = ['>']
            elif o == '==': R = ['!=']
            elif o == '!=': R = ['==']
            elif o == '&&': R = ['||']
            elif o == '||': R = ['&&']
            elif o == '++': R = ['--']
            elif o == '--': R = ['++']
            elif o == '+=': R = ['-=']
            elif o == '-=': R = ['+=']
            elif o in '<>':
                if not (a.endswith(' ') and b.startswith(' ')): continue
                R = [o + '=']
            elif o in '+-':
                if not (a.endswith(' ') and b.startswith(' ')): continue
                R = ['-' if o == '+' else '+']
            elif o == 'true': R = ['false']
            elif o == 'false': R = ['true']
            else:
                if re.search(r'[\w.]$', a) or re.match(r'[xX.\w]', b): continue
                v = int(o); R = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
            for r in R: add(a + r + b + body[len(c):], o + ' -> ' + r)
        m = re.match(r'^(\s*)(?:else )?if \((.*)\)\s*(.*)$', c)
        if m and c.count('(') == c.count(')'):
            # Negate the condition.
            i = c.index('if (') + 4; d = 1; j = i
            while j < len(c) and d: d += {'(': 1, ')': -1}.get(c[j], 0); j += 1
            cond = c[i:j - 1]
            add(c[:i] + '!(' + cond + ')' + c[j - 1:], 'negate if')
            add(c[:i] + 'false && (' + cond + ')' + c[j - 1:], 'if never')
        if re.match(r'^\s*[\w\->\.\[\]\(\)\*:, &+"\'\\]+(=[^=].*|\(.*\)|\+\+|--);\s*$', c) and not re.match(r'^\s*(return|delete|const|static|typedef|using|inline|virtual|friend|extern|std::\w+ [\w*&]+|size_t|char|int|bool|unsigned|DWORD|wchar_t|double|float|T|KeyNode|struct|class)\b', c) and not re.match(r'^\s*[\w:]+(<.*>)? [*&]*\w+( =|\(|;)', c):
            add(re.match(r'^\s*', c).group(0) + ';', 'drop statement')
        if re.match(r'^\s*(delete|break|continue)\b.*;\s*$', c): add(re.match(r'^\s*', c).group(0) + ';', 'drop statement')
    return res
def main():
    files = [os.path.relpath(f, REPO) for d in 'json convert templates utf8 environment security sync'.split() for f in sorted(glob.glob(REPO + '/' + d + '/*.cpp') + glob.glob(REPO + '/' + d + '/*.h'))]
    pat = sys.argv[3] if len(sys.argv) > 3 else ''
    allm = [(f, n, new, kind) for f in files if re.search(pat, f) for n, new, kind in mutants(f)]
    per = int(os.environ.get('MUT_PER_LINE', '0'))
    if per:
        by = {}
        for m in allm:
            if 'Primes' not in m[2] and not re.match(r'^\s*[\d, ]+\s*$', m[2]): by.setdefault(m[:2], []).append(m)
        allm = [m for k in sorted(by) for m in random.Random(str(k)).sample(by[k], min(per, len(by[k])))]
    if sys.argv[1] == 'list':
        from collections import Counter
        c = Counter(m[0] for m in allm)
        for f in c: print(c[f], f)
        print(len(allm)); return
    os.makedirs('/tmp/mut', exist_ok=True); os.makedirs('/tmp/mut/ccbin', exist_ok=True)
    cc = shutil.which('ccache')
    if not os.path.exists('/tmp/mut/ccbin/clang++'): os.symlink(cc, '/tmp/mut/ccbin/clang++')
    random.Random(5).shuffle(allm)
    done = set()
    if os.path.exists('/tmp/mut/results.jsonl'):
        for l in open('/tmp/mut/results.jsonl'):
            d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    q = queue.Queue()
    for m in allm:
        if (m[0], m[1] + 1, m[2].rstrip('\r').strip()) not in done: q.put(m)
    print(q.qsize(), 'to run', flush=True)
    nw = int(sys.argv[2]); secs = float(os.environ.get('MUT_SECS', '4')); jobs = os.environ.get('MUT_JOBS', '2'); lock = threading.Lock()
    base = os.environ.get('MUT_DIR', '/dev/shm/mut')
    def work(w):
        d = base + str(w); shutil.rmtree(d, ignore_errors=True); subprocess.run(['git', 'clone', '-q', REPO, d + '/repo'])
        env = dict(os.environ, PATH='/tmp/mut/ccbin:' + os.environ['PATH'], CCACHE_DIR='/tmp/mut/ccache%d' % w, CCACHE_MAXSIZE='400M', VERIF_REPO=d + '/repo')
        while True:
            try: f, n, new, kind = q.get_nowait()
            except queue.Empty: break
            p = d + '/repo/' + f; t = open(p, encoding='latin-1', newline='').read(); L = t.split('\n'); old = L[n]; L[n] = new
            open(p, 'w', encoding='latin-1', newline='').write('\n'.join(L))
            r = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), kind=kind, res='survived', by='')
            try:
                for h, props in next(v for k, v in MAP if re.match(k, f)):
                    o = subprocess.run([sys.executable, HERE + '/tools/mutrun.py', h, str(secs), jobs] + props, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                    last = o.stdout.decode(errors='replace').strip().split('\n')[-1]
                    if last.startswith('RESULT '): r['res'], r['by'] = (last.split() + [''])[1:3]
                    else: r['res'] = 'error'; r['by'] = last[-200:]
                    if r['res'] != 'survived': break
            except subprocess.TimeoutExpired: r['res'] = 'timeout'
            open(p, 'w', encoding='latin-1', newline='').write(t)
            with lock: open('/tmp/mut/results.jsonl', 'a').write(json.dumps(r) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(nw)]
    [x.start() for x in ts]; [x.join() for x in ts]
if __name__ == '__main__': main()
