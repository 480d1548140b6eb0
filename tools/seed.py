#!/usr/bin/env python3
"""Create planted bugs under seeded/ from tools/bugs.py and confirm them.

For each bug: scratch copy of /repo, apply the edit, run the repository's
tests there (must all pass), run the demonstration on the unchanged and on the
changed tree (must exit 0 and non-zero).   seed.py [id ...]
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
W = '/tmp/seedw'
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('git -C /repo archive HEAD | tar x -C %s' % W)
    sh('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', cwd=W)


def main():
    from bugs import BUGS
    ids = sys.argv[1:]
    bad = 0
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        out = os.path.join(V, 'seeded', b['id'])
        scratch()
        for path, old, new in b['edits']:
            p = os.path.join(W, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT does not apply (%d matches)' % s.count(old), path)
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            diff = sh('git diff', cwd=W).stdout
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
            t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider verktyg/testsuite 2>&1 | tail -3', cwd=W, env=env)
            ok = '241 passed' in t.stdout and 'failed' not in t.stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(out, 'demo.py'), 'w').write(HEAD + b['demo'].strip() + '\n')
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            d = os.path.join(out, 'demo.sh')
            clean = sh('bash ' + d, cwd='/repo', env=env)
            dirty = sh('bash ' + d, cwd=W, env=env)
            good = ok and clean.returncode == 0 and dirty.returncode != 0
            bad += not good
            print(b['id'], 'OK' if good else 'BAD', '' if good else
                  'tests=%s clean=%d dirty=%d\n%s' % (t.stdout.strip()[-300:], clean.returncode,
                                                      dirty.returncode, clean.stderr[-500:]))
    shutil.rmtree(W, ignore_errors=True)
    return bad


sys.exit(main())
