"""Target updates."""
from lib import *


@contract('incremental_update', ['optax/_src/update.py:incremental_update'], trees=FAMILY)
def incremental(c):
  """Polyak average; end points 0 and 1 included."""
  new, old, s = c.tree('new'), c.tree('old'), c.real('s')
  b = snapshot(new, old)
  r = optax.incremental_update(new, old, s)
  c.eq('mix', r, tmap(lambda n, o: s * n + (1 - s) * o, new, old))
  c.eq('step size 0', optax.incremental_update(new, old, 0.0), old)
  c.eq('step size 1', optax.incremental_update(new, old, 1.0), new)
  c.check('unmodified', snapshot(new, old) == b)


@contract('periodic_update', ['optax/_src/update.py:periodic_update'], cross(tree=FAMILY, weak=[True, False]))
def periodic(c):
  """Selection without contamination, for NaN and infinite tensors too."""
  new, old = c.tree('new', special=True), c.tree('old', special=True)
  n = c.int('n', 0) if c.v['weak'] else c.count('n')
  k = c.int('k', 1, 10**6)
  r = optax.periodic_update(new, old, n, k)
  c.eq('selection', r, tmap(lambda a, b: jnp.where(n % k == 0, a, b), new, old))
