"""Adam."""
from vp.contract import contract, cross
import jax, jax.numpy as jnp
import optax
from optax._src import transform
from lib import *


@contract('scale_by_adam.update', ['optax/_src/transform.py:scale_by_adam'], trees=FAMILY)
def adam_update(c):
  b1, b2 = c.real('b1', 0, 1, hi_open=True), c.real('b2', 0, 1, hi_open=True)
  eps, root = c.real('eps', 0), c.real('eps_root', 0)
  tx = optax.scale_by_adam(b1=b1, b2=b2, eps=eps, eps_root=root)
  g = c.tree('g'); m = c.tree('m'); v = c.tree('v', nonneg=True)
  n = c.count('n', hi=2**31 - 2)
  u, s = tx.update(g, transform.ScaleByAdamState(count=n, mu=m, nu=v))
  t1 = n + 1
  wm = tmap(lambda g, m: b1 * m + (1 - b1) * g, g, m)
  wv = tmap(lambda g, v: b2 * v + (1 - b2) * g * g, g, v)
  c.eq('mu', s.mu, wm)
  c.eq('nu', s.nu, wv)
  c.eq('count', s.count, t1)
  c.eq('update', u, tmap(lambda m, v: (m / (1 - b1 ** t1)) / (jnp.sqrt(v / (1 - b2 ** t1) + root) + eps), wm, wv))


@contract('scale_by_adam.init', ['optax/_src/transform.py:scale_by_adam'], trees=FAMILY)
def adam_init(c):
  tx = optax.scale_by_adam(b1=c.real('b1'), b2=c.real('b2'), eps=c.real('eps'), eps_root=c.real('r'))
  p = c.tree('p')
  s = tx.init(p)
  c.eq('count', s.count, jnp.zeros([], jnp.int32))
  c.eq('mu', s.mu, tmap(jnp.zeros_like, p))
  c.eq('nu', s.nu, tmap(jnp.zeros_like, p))
