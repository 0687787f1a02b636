"""Non-negativity constraint."""
from lib import *

T = ['optax/_src/constrain.py:keep_params_nonnegative']


@contract('keep_params_nonnegative', T, cross(tree=FAMILY + ['wide'], dt=['float32']) + cross(tree=['nest'], dt=['bfloat16', 'float16']) + cross(tree=['mixed'], dt=[None]))
def nonneg(c):
  tx = optax.keep_params_nonnegative()
  p, u = c.tree('p', nonneg=True, dtype=c.v['dt']), c.tree('u', dtype=c.v['dt'])
  s = tx.init(p)
  r, s1 = tx.update(u, s, p)
  c.check('stateless', leaves(s) == [] and leaves(s1) == [])
  c.same_type('type', r, u)
  c.eq('update', r, tmap(lambda p, u: jnp.where(p + u >= 0, u, -p), p, u))
  q = tmap(lambda p, r: p + r, p, r)
  c.holds('non-negative', tmap(lambda q: q >= 0, q))
  c.eq('new params', q, tmap(lambda p, u: jnp.maximum(p + u, jnp.zeros_like(p)), p, u))


@contract('keep_params_nonnegative.any params', T, cross(tree=['nest']))
def neg(c):
  """Even for a negative parameter the new one is non-negative."""
  tx = optax.keep_params_nonnegative()
  p, u = c.tree('p'), c.tree('u')
  r, _ = tx.update(u, tx.init(p), p)
  c.holds('non-negative', tmap(lambda p, r: p + r >= 0, p, r))
  c.raises('no params', ValueError, lambda: tx.update(u, tx.init(p), None))
