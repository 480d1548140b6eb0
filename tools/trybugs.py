#!/usr/bin/env python3
"""Run the checks against every planted bug (scratch copies, in parallel 2 at a time).
trybugs.py [--all-props] [id ...]"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]


def one(i):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = '/tmp/trybug.' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % w, shell=True, check=True)
    r = subprocess.run(['git', 'apply', '--directory', '', os.path.join(d, 'patch.diff')], cwd=w,
                       capture_output=True, text=True)
    if r.returncode:
        return i, prop, 'patch does not apply: ' + r.stderr, ''
    env = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick', VERIF_OUT='/tmp/trybug.out')
    r = subprocess.run([os.path.join(V, 'bin/check'), prop], env=env, capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    first = next((l for l in r.stdout.splitlines() if l.startswith('DIFF')), r.stdout[-300:])
    return i, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d %s' % (r.returncode, r.stdout[-800:])), first


ids = args or sorted(os.listdir(os.path.join(V, 'seeded')))
res = {}
with cf.ThreadPoolExecutor(2) as ex:
    for i, p, what, first in ex.map(one, ids):
        res[i] = what
        print(i, p, what, ('' if what == 'caught' else first)[:400], flush=True)
print(sum(v == 'caught' for v in res.values()), 'of', len(res), 'caught')
