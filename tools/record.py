#!/usr/bin/env python3
"""record.py <property> <base commit>: add the fix: commits after base to KNOWN_FINDINGS.txt"""
import subprocess
import sys
p = '/verif/KNOWN_FINDINGS.txt'
L = open(p).read().split('\n')
k = max(i for i, l in enumerate(L) if l.startswith('fixed:'))
new = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s',
                         sys.argv[2] + '..HEAD'], capture_output=True,
                        text=True).stdout.strip().split('\n'):
    h, m = l.split(' ', 1)
    if m.startswith('fix: '):
        new.append('fixed: property=%s %s %s' % (sys.argv[1], h, m[5:]))
L[k + 1:k + 1] = new
open(p, 'w').write('\n'.join(L))
