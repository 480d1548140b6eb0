"""Summarise a replay file: which parts of the answers differ."""
import collections
import json
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')
from core import canon


def walk(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and set(a) != {'SET'}:
        for k in a:
            yield from walk(a[k], b[k], path + '.' + k)
    elif canon(a) != canon(b):
        yield path, a, b


n = collections.Counter()
for v in json.load(open(sys.argv[1]))['violations']:
    d = v['diff']
    if 'expected' not in d:
        print(d)
        continue
    for p, a, b in walk(d['expected'], d['got']):
        n[p] += 1
        if n[p] <= int((sys.argv + ['2'])[2]):
            print(p, 'spec', json.dumps(a)[:200], 'code', json.dumps(b)[:200], '| op', json.dumps(d['op'])[:150], '| init', json.dumps({k: x for k, x in v['case']['init'].items() if x not in ('<None>', [])} if isinstance(v['case']['init'], dict) else v['case']['init'])[:600])
print(n)
