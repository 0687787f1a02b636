"""Elementwise clipping."""
from lib import *


@contract('clip', ['optax/_src/clipping.py:clip'], cross(tree=FAMILY, dt=['float32']) + cross(tree=['nest'], dt=['bfloat16', 'float16']) + cross(tree=['mixed'], dt=[None]))
def clip(c):
  """NaN and infinities are included among the inputs."""
  d = c.real('d', 0)
  g = c.tree('g', special='huge', dtype=c.v['dt'])
  tx = optax.clip(d)
  s = tx.init(g)
  u, s1 = tx.update(g, s)
  c.same_type('type', u, g)
  c.check('stateless', leaves(s) == [] and leaves(s1) == [])

  def f(g):
    return jnp.where(jnp.isnan(g) | (jnp.abs(g) <= d), g, jnp.where(g > 0, d, -d).astype(g.dtype))
  c.eq('clipped', u, tmap(f, g))
  c.holds('bounded', tmap(lambda u: jnp.isnan(u) | (jnp.abs(u) <= (d if u.dtype != jnp.bfloat16 and u.dtype != jnp.float16 else jnp.asarray(d, u.dtype))), u))
  c.eq('idempotent', tx.update(u, s1)[0], u)
