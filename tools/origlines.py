#!/usr/bin/env python3
"""origlines.py: for each planted bug, are the lines it removes lines of the original repository?"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = '3a5ca7f'
for i in sorted(os.listdir(V + '/seeded')):
    f = None; bad = []; n = 0
    for l in open(f'{V}/seeded/{i}/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip(); t = subprocess.check_output(['git', '-C', '/repo', 'show', f'{base}:{f}'], text=True).split('\n')
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            if l[1:].rstrip('\n') not in t: bad.append(l.strip())
    print(i, 'removed', n, 'NOT ORIGINAL: %s' % bad if bad else 'ok')
