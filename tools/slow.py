"""Slowest obligations of a property: tools/slow.py Cxx [n]"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import run
import time
sys.setrecursionlimit(20000)
m, cs = run.load(sys.argv[1])
e = run.Engine(sys.argv[1])
e.budget = 10**6
t0 = time.time()
for c in cs:
  for v in c.variants:
    t1 = time.time(); n0 = len(e.obls)
    e.verify(c, v)
    dt = time.time() - t1; ob = sum(o.secs for o in e.obls[n0:])
    if dt > 2: print('%s %s: %.1f s, obligations %.1f s' % (c.name, str(v)[:80], dt, ob))
for o in sorted(e.obls, key=lambda o: -o.secs)[:int(sys.argv[2]) if len(sys.argv) > 2 else 12]:
  print('%.1f %s %s %s %s' % (o.secs, o.contract.name, str(o.variant)[:60], o.name, o.backend))
