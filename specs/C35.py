"""L2 and Huber losses."""
from lib import *

S = 'optax/_src/loss.py:'
SHAPES = [(), ('a',), ('a', 'b')] + ([('a', 'b', 'c')] if THOROUGH else [])
V = cross(shape=SHAPES, targets=['none', 'same', 'scalar']) + cross(shape=[('a', 'b')], targets=['row'])


def inputs(c, special=False):
  sh = c.v['shape']
  p = c.array('p', sh, special=special)
  k = c.v['targets']
  t = None if k == 'none' else c.array('t', {'same': sh, 'scalar': (), 'row': sh[1:]}[k], special=special)
  return p, t, (p if t is None else p - t)


@contract('l2_loss', [S + 'l2_loss'], V)
def l2(c):
  p, t, e = inputs(c)
  r = optax.l2_loss(p) if t is None else optax.l2_loss(p, t)
  c.eq('value', r, e * e / 2)
  c.check('shape', r.shape == p.shape)
  c.holds('non-negative', r >= 0)
  if t is not None: c.eq('keyword', optax.l2_loss(predictions=p, targets=t), e * e / 2)


@contract('huber_loss', [S + 'huber_loss'], V)
def huber(c):
  p, t, e = inputs(c)
  d = c.real('delta', 0, lo_open=True)
  args = (p,) if t is None else (p, t)
  r = optax.huber_loss(*args, delta=d)
  a = jnp.abs(e)
  c.eq('value', r, jnp.where(a <= d, e * e / 2, d * d / 2 + d * (a - d)))
  c.check('shape', r.shape == p.shape)
  c.holds('non-negative', r >= 0)
  g = jax.grad(lambda p: jnp.sum(optax.huber_loss(p, *args[1:], delta=d)))(p)
  c.eq('gradient', g, jnp.where(e > d, d, jnp.where(e < -d, -d, e)))
  # default bound 1
  c.eq('default delta', optax.huber_loss(*args), jnp.where(a <= 1, e * e / 2, a - 0.5))


@contract('losses.infinite', [S + 'l2_loss', S + 'huber_loss'], cross(shape=[('a', 'b')], targets=['none', 'same']))
def infinite(c):
  """NaN and Inf in some elements stay there."""
  p, t, e = inputs(c, special=True)
  args = (p,) if t is None else (p, t)
  d = c.real('delta', 0, lo_open=True)
  r, h = optax.l2_loss(*args), optax.huber_loss(*args, delta=d)
  ok = jnp.isfinite(e)
  z = jnp.where(ok, e, 0.0); a = jnp.abs(z)
  inf = jnp.where(jnp.isnan(e), jnp.nan, jnp.inf)
  c.eq('l2', r, jnp.where(ok, z * z / 2, inf))
  c.eq('huber', h, jnp.where(ok, jnp.where(a <= d, z * z / 2, d * d / 2 + d * (a - d)), inf))
