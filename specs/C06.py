"""AdaBelief."""
from lib import *
from optax._src import transform


@contract('scale_by_belief.update', ['optax/_src/transform.py:scale_by_belief'], trees=FAMILY)
def update(c):
  b1, b2 = rates(c, 'b1', 'b2')
  eps, root = c.real('eps', 0), c.real('root', 0)
  tx = optax.scale_by_belief(b1=b1, b2=b2, eps=eps, eps_root=root)
  g = c.tree('g'); m = c.tree('m'); v = c.tree('v', nonneg=True); n = c.count('n', hi=I32MAX - 1)
  u, s = tx.update(g, transform.ScaleByBeliefState(count=n, mu=m, nu=v))
  wm = ema_(b1, m, g)
  wv = tmap(lambda g, m, v: b2 * v + (1 - b2) * (g - m) * (g - m), g, m, v)
  c.eq('mu', s.mu, wm); c.eq('nu', s.nu, wv); c.eq('count', s.count, n + 1)
  c.eq('update', u, tmap(lambda m, v: (m / (1 - b1 ** (n + 1))) / (jnp.sqrt(v / (1 - b2 ** (n + 1)) + root) + eps), wm, wv))


@contract('scale_by_belief.init', ['optax/_src/transform.py:scale_by_belief'], trees=FAMILY)
def init(c):
  p = c.tree('p')
  s = optax.scale_by_belief(b1=c.real('b1'), b2=c.real('b2')).init(p)
  c.eq('count', s.count, zero32()); c.eq('mu', s.mu, tmap(jnp.zeros_like, p)); c.eq('nu', s.nu, tmap(jnp.zeros_like, p))
