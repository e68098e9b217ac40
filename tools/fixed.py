#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from /repo's fix: commits (Property: trailer or the table below)."""
import subprocess, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAB = [('JSON', 'J01'), ('ToFilesizeString', 'C02'), ('Convert::Int', 'C01'), ('Static2DArray', 'V01'), ('PackedOrderedHash', 'H02'), ('OrderedHash', 'H01'),
       ('FastReplace', 'S02'), ('FastFind', 'S01'), ('ConvertToUTF8', 'U01'), ('ConvertFromUTF8', 'U01'), ('FindCodePoint', 'U02'), ('NextCodePoint', 'U02'), ('TLS::MixedVar', 'T02'), ('MixedVar', 'M01'),
       ('TLS::', 'T01'), ('CSPRNG', 'R01'), ('AppInfo', 'A01'), ('SharedLib', 'L01'), ('Mutex', 'Y01'), ('Semaphore', 'Y02'), ('Event', 'Y03'), ('ReadWriteLock', 'Y04'), ('SharedMem', 'Y05'), ('named', 'Y05'),
       ('Copy', 'F03'), ('Move', 'F03'), ('LineInput', 'F02'), ('LoadEntireFile', 'F02'), ('GetAbsoluteFilename', 'F04'), ('GetPlatformFilename', 'F04'), ('Dir::', 'F05'), ('Readlink', 'F05'), ('SetFileTimes', 'F05'), ('Chgrp', 'F05'), ('File::', 'F01')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x00%s%x00%b%x01'], stdout=subprocess.PIPE, text=True).stdout
out = []
for e in log.split('\x01'):
    e = e.strip('\n')
    if not e: continue
    h, s, b = e.split('\0')
    if not s.startswith('fix:'): continue
    m = re.search(r'Property: (\w+)', b)
    pid = m.group(1) if m else next((p for k, p in TAB if k in s), None)
    assert pid, s
    out.append('fixed: property=%s %s %s' % (pid, h, s[5:]))
f = os.path.join(HERE, 'known-findings.txt')
keep = [l for l in open(f).read().splitlines() if not l.startswith('fixed:')]
open(f, 'w').write('\n'.join(keep + out) + '\n')
