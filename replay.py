#!/usr/bin/env python3
"""python3-vt replay.py FILE: re-run a recorded counterexample on the real, uninstrumented code.
Exit 1 when the property is violated, 0 when it holds."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pysym import harness as H  # noqa

with open(sys.argv[1]) as f:
    v = json.load(f)
mod = H.load_check(v['property'])
h = [x for x in mod.HARNESSES if x.name == v['harness']][0]
status, failures, obs, reached = H.run_concrete(h.fn, H.unjson(v['params']), H.unjson(v['inputs']), timeout=60)
print('property %s, harness %s' % (v['property'], v['harness']))
print('params  %r' % (H.unjson(v['params']),))
print('inputs  %r' % (H.unjson(v['inputs']),))
for l, o in obs:
    print('observed %s = %r' % (l, o))
for m in failures:
    print('FAILED: %s' % m)
sys.exit(1 if failures else 0)
