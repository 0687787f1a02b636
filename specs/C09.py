"""RMS, centred RMS and Adagrad."""
from lib import *
from optax._src import transform


@contract('scale_by_rms', ['optax/_src/transform.py:scale_by_rms'], trees=FAMILY)
def rms(c):
  d = rates(c, 'd'); eps = c.real('eps', 0, lo_open=True); a = c.real('a', 0)
  tx = optax.scale_by_rms(decay=d, eps=eps, initial_scale=a)
  g = c.tree('g'); nu = c.tree('nu', nonneg=True)
  c.eq('init', tx.init(g).nu, tmap(lambda x: jnp.full_like(x, a), g))
  u, s = tx.update(g, transform.ScaleByRmsState(nu=nu))
  w = ema_(d, nu, tmap(lambda g: g * g, g))
  c.eq('nu', s.nu, w)
  c.eq('update', u, tmap(lambda g, n: g / jnp.sqrt(n + eps), g, w))
  for n in leaves(s.nu): c.holds('nu non-negative', n >= 0)
  for x, y in zip(leaves(u), leaves(g)): c.holds('sign kept', (x * y >= 0) & ((x == 0) == (y == 0)))
  c.finite('finite', u)


@contract('scale_by_stddev', ['optax/_src/transform.py:scale_by_stddev'], trees=FAMILY)
def stddev(c):
  """nu >= mu^2 is an inductive invariant (initially mu = 0)."""
  d = rates(c, 'd'); eps = c.real('eps', 0, lo_open=True); a = c.real('a', 0)
  tx = optax.scale_by_stddev(decay=d, eps=eps, initial_scale=a)
  g = c.tree('g'); nu = c.tree('nu', nonneg=True); mu = c.tree('mu')
  i = tx.init(g)
  c.eq('init nu', i.nu, tmap(lambda x: jnp.full_like(x, a), g)); c.eq('init mu', i.mu, tmap(jnp.zeros_like, g))
  for n, m in zip(leaves(nu), leaves(mu)): c.require(n >= m * m)
  u, s = tx.update(g, transform.ScaleByRStdDevState(mu=mu, nu=nu))
  wn, wm = ema_(d, nu, tmap(lambda g: g * g, g)), ema_(d, mu, g)
  c.eq('nu', s.nu, wn); c.eq('mu', s.mu, wm)
  for n, m in zip(leaves(s.nu), leaves(s.mu)): c.holds('variance non-negative', n >= m * m)
  c.eq('update', u, tmap(lambda g, n, m: g / jnp.sqrt(n - m * m + eps), g, wn, wm))
  for x, y in zip(leaves(u), leaves(g)): c.holds('sign kept', (x * y >= 0) & ((x == 0) == (y == 0)))
  c.finite('finite', u)


@contract('scale_by_rss', ['optax/_src/transform.py:scale_by_rss'], trees=FAMILY)
def rss(c):
  eps = c.real('eps', 0); a = c.real('a', 0)
  tx = optax.scale_by_rss(initial_accumulator_value=a, eps=eps)
  g = c.tree('g'); acc = c.tree('acc', nonneg=True)
  c.eq('init', tx.init(g).sum_of_squares, tmap(lambda x: jnp.full_like(x, a), g))
  u, s = tx.update(g, transform.ScaleByRssState(sum_of_squares=acc))
  w = tmap(lambda g, a: g * g + a, g, acc)
  c.eq('accumulator', s.sum_of_squares, w)
  c.eq('update', u, tmap(lambda g, a: jnp.where(a > 0, g / jnp.sqrt(jnp.where(a > 0, a, 1.0) + eps), 0.0), g, w))
  for n, o in zip(leaves(s.sum_of_squares), leaves(acc)): c.holds('accumulator grows', n >= o)
  for x, y in zip(leaves(u), leaves(g)): c.holds('sign kept', (x * y >= 0) & ((x == 0) == (y == 0)))
  c.finite('finite', u)
