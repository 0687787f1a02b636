"""NaN filtering."""
from lib import *

T = ['optax/_src/constrain.py:zero_nans']


@contract('zero_nans', T, cross(tree=FAMILY + ['wide'], dt=['float32']) + cross(tree=['nest'], dt=['bfloat16', 'float16']) + cross(tree=['mixed'], dt=[None]))
def zn(c):
  tx = optax.zero_nans()
  g, p = c.tree('g', special='huge', dtype=c.v['dt']), c.tree('p', dtype=c.v['dt'])
  s0 = tx.init(p)
  c.eq('init', s0.found_nan, tmap(lambda p: jnp.asarray(False), p))
  s = s0._replace(found_nan=tmap(lambda p: c.bool('old'), p))
  u, s1 = tx.update(g, s)
  c.same_type('type', u, g); c.same_type('state', s1, s0)
  c.eq('filtered', u, tmap(lambda g: jnp.where(jnp.isnan(g), jnp.zeros_like(g), g), g))
  c.eq('found', s1.found_nan, tmap(lambda g: jnp.any(jnp.isnan(g)), g))
  c.holds('no NaN left', tmap(lambda u: ~jnp.isnan(u), u))
