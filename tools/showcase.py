#!/usr/bin/env python3
"""showcase.py <driver module> <gen call> <index>: print a generated case."""
import json, random, sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')
mod, prop, call, idx = sys.argv[1:5]
m = __import__(mod)
r = random.Random('%s/%s/%s' % (prop, 1, ''))
cases = eval(call, {'m': m, 'r': r})
print(json.dumps(cases[int(idx)]))
