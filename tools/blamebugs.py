#!/usr/bin/env python3
"""Which planted bugs change no line of the original repository?"""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
own = set(subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^fix:', '--grep=^hook:'], capture_output=True, text=True).stdout.split())
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    f = n = orig = added = 0
    for l in open(os.path.join(V, 'seeded', i, 'patch.diff')):
        if l.startswith('--- '):
            f = l[6:].strip(); blame = None
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith(' '):
            n += 1
        elif l.startswith('+') and not l.startswith('+++'):
            added += 1
        elif l.startswith('-'):
            n += 1
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', '-L%d,%d' % (n, n), f], capture_output=True, text=True).stdout
            if b.split()[0].lstrip('^') not in own and not any(o.startswith(b.split()[0].lstrip('^')) for o in own):
                orig += 1
    if not orig:
        print(i, 'original lines changed: 0, added', added)
