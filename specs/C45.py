"""No NaN or Inf from finite histories.

Invariant of every transformation: the state is finite, accumulators of squares are
nonnegative, and where a variance is computed as nu - mu^2 it is nonnegative. It holds after
init; update from any state satisfying it returns finite updates and a state satisfying it --
which includes that no division by zero and no root of a negative number is selected."""
from lib import *

BUDGET = 400
SKIP = ('identity', 'lookahead', 'lookahead.reset')
NAMES = [n for n in ZOO if n not in SKIP]


def pieces(s, out):
  """(field name, value, is sm3) of every named field."""
  if isinstance(s, tuple) and hasattr(s, '_fields'):
    d = {}
    for f in s._fields:
      v = getattr(s, f)
      if _nt(v): pieces(v, out)
      else: d[f] = v
    out.append((type(s).__name__, d))
  elif isinstance(s, (list, tuple)):
    for x in s: pieces(x, out)
  return out


def _nt(s):
  if isinstance(s, tuple) and hasattr(s, '_fields'): return True
  return isinstance(s, (list, tuple)) and any(_nt(x) for x in s)


def reached(c, s0):
  s = any_state(c, s0)
  # hyperparameters kept in the state are valid ones
  return s._replace(hyperparams=s0.hyperparams) if hasattr(s, 'hyperparams') else s


def invariant(c, s):
  out = []
  for nm, d in pieces(s, []):
    for f, v in d.items():
      if f == 'sum_of_squares' or f == ('mu' if 'SM3' in nm else 'nu'): out += [('%s.%s nonnegative' % (nm, f), x >= 0) for x in leaves(v)]
      elif f == 'count': out += [('count', v >= 0)]
    if 'Stddev' in nm or nm in ('ScaleByRStdDevState',):
      out += [('variance nonnegative', (a + (0 if c.symbolic else 1e-9 * (1 + a))) >= b * b) for a, b in zip(leaves(d['nu']), leaves(d['mu']))]
  return out


@contract('finite', sorted({ZOO[n].target for n in NAMES}), cross(tx=NAMES, tree=['nest']) + (cross(tx=NAMES, tree=['ranks', 'scalar']) if THOROUGH else []), depth=6)
def finite(c):
  z = ZOO[c.v['tx']]
  tx = z.make(c)
  g, p, _ = zoo_args(c, z)
  s0 = tx.init(p)
  c.finite('init', s0)
  for nm, x in invariant(c, s0): c.holds('init ' + nm, x)
  u0, _ = tx.update(g, s0, p)
  c.finite('first updates', u0)
  s = reached(c, s0)
  if not c.symbolic: s = admissible(s)
  for nm, x in invariant(c, s): c.require(x if c.symbolic else bool(np.all(np.asarray(x))))
  u, s1 = tx.update(g, s, p)
  c.finite('updates', u); c.finite('state', s1)
  for nm, x in invariant(c, s1): c.holds('kept ' + nm, x)


def admissible(s):
  """Concrete runs: nu := nu + mu^2 where the variance must be nonnegative."""
  if isinstance(s, tuple) and hasattr(s, '_fields'):
    if type(s).__name__ == 'ScaleByRStdDevState': return s._replace(nu=tmap(lambda n, m: n + m * m, s.nu, s.mu))
    return type(s)(*[admissible(getattr(s, f)) for f in s._fields])
  if isinstance(s, (list, tuple)): return type(s)(admissible(x) for x in s)
  return s


@contract('all zero', sorted({ZOO[n].target for n in NAMES}), cross(tx=NAMES, tree=['nest']))
def zero(c):
  """Zero gradients and parameters from init: no 0/0."""
  z = ZOO[c.v['tx']]
  tx = z.make(c)
  g, p, _ = zoo_args(c, z)
  o = lambda t: tmap(jnp.zeros_like, t)
  s0 = tx.init(o(p))
  u, s1 = tx.update(o(g), s0, o(p))
  c.finite('updates', u); c.finite('state', s1)
  u, s2 = tx.update(g, s1, o(p))
  c.finite('then a gradient', u)
  u, s2 = tx.update(o(g), reached(c, s0) if not any('Std' in n for n, _ in pieces(s0, [])) else s1, o(p))
  c.finite('zero at an arbitrary step', u); c.finite('state then', s2)
