"""Trust ratio."""
from lib import *
from optax._src import transform, numerics


def norm(x): return jnp.sqrt(jnp.sum(x * x))


@contract('scale_by_trust_ratio', ['optax/_src/transform.py:scale_by_trust_ratio', 'optax/_src/numerics.py:safe_norm'], trees=FAMILY)
def ratio(c):
  mn = c.real('mn', 0)
  tx = optax.scale_by_trust_ratio(mn)
  u, p = c.tree('u'), c.tree('p')
  s = tx.init(p)
  r, s1 = tx.update(u, s, p)
  c.check('stateless', leaves(s) == [] and leaves(s1) == [])

  def f(u, p):
    a, b = jnp.maximum(norm(p), mn), jnp.maximum(norm(u), mn)
    z = (a == 0) | (b == 0)
    return jnp.where(z, u, u * a / jnp.where(b == 0, 1.0, b))
  c.eq('scaled', r, tmap(f, u, p))


@contract('scale_by_trust_ratio.norms', ['optax/_src/transform.py:scale_by_trust_ratio'], trees=FAMILY[:2])
def norms(c):
  """min_norm 0 (the default): the result has the parameter's norm and the update's direction."""
  tx = optax.scale_by_trust_ratio()
  u, p = c.tree('u'), c.tree('p')
  r, _ = tx.update(u, tx.init(p), p)
  for x, y, z in zip(leaves(r), leaves(u), leaves(p)):
    a, b = norm(z), norm(y)
    both = (a > 0) & (b > 0)
    k = jnp.where(both, a / jnp.where(both, b, 1.0), 1.0)
    c.eq('direction', x, k * y)
    c.holds('factor positive', k > 0)
    sq = jnp.sum(x * x)
    c.eq('norm', sq, jnp.where(both, jnp.sum(z * z), jnp.sum(y * y)))


@contract('scale_by_trust_ratio.no params', ['optax/_src/transform.py:scale_by_trust_ratio'], trees=['nest'])
def nop(c):
  tx = optax.scale_by_trust_ratio(c.real('mn', 0)); u = c.tree('u')
  c.raises('no params', ValueError, lambda: tx.update(u, tx.init(u), None))
