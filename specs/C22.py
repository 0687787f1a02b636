"""apply_if_finite."""
from lib import *

T = ['optax/_src/wrappers.py:apply_if_finite']
M = I32MAX - 1


def eq_state(c, name, s1, count, total, finite, inner):
  c.eq(name + ' consecutive', s1.notfinite_count, count)
  c.eq(name + ' total', s1.total_notfinite, total)
  c.eq(name + ' last_finite', s1.last_finite, finite)
  c.eq(name + ' inner', s1.inner_state, inner)


@contract('apply_if_finite', T, cross(tree=FAMILY + ['wide'], dt=['float32'], par=[True, False]) + cross(tree=['nest'], dt=['bfloat16', 'float16'], par=[True]) + cross(tree=['mixed'], dt=[None], par=[True]))
def finite(c):
  """Updates, inner results and inner states may contain NaN and infinities."""
  mx = c.int('max', 0, M)
  inner = c.opaque_tx('in', special=True)
  tx = optax.apply_if_finite(inner, mx)
  g, p = c.tree('g', special='huge', dtype=c.v['dt']), c.tree('p', dtype=c.v['dt'])
  s0 = tx.init(p)
  it0 = jnp.result_type(s0.notfinite_count)
  zero = jnp.zeros([], it0)
  eq_state(c, 'init', s0, zero, zero, jnp.asarray(True), inner.init(p))
  k, n = c.count('k', 0, M).astype(it0), c.count('n', 0, M).astype(it0)
  st = tmap(lambda x: c.array('st', x.shape, x.dtype, **(dict(special=True) if jnp.issubdtype(x.dtype, jnp.floating) else {})), s0.inner_state)
  s = s0._replace(notfinite_count=k, total_notfinite=n, last_finite=c.bool('lf'), inner_state=st)
  args = (g, st) + ((p,) if c.v['par'] else ())
  u, s1 = tx.update(g, s, p) if c.v['par'] else tx.update(g, s)
  ok = jnp.asarray(True)
  for x in leaves(g): ok = ok & jnp.all(jnp.isfinite(x))
  iu, is_ = inner.update(*args)
  k1 = jnp.where(ok, 0, k + 1).astype(it0)
  apply = ok | (k1 > mx)
  c.eq('update', u, tmap(lambda x, g: jnp.where(apply, x, jnp.zeros_like(g)), iu, g))
  eq_state(c, 'new', s1, k1, (n + jnp.where(ok, 0, 1)).astype(it0), ok, tmap(lambda a, b: jnp.where(apply, a, b), is_, st))
  c.same_type('type', u, g); c.same_type('state type', s1, s0)
