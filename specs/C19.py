"""Gradient noise."""
from lib import *

T = ['optax/_src/transform.py:add_noise', 'optax/_src/numerics.py:safe_int32_increment']


@contract('add_noise', T, cross(tree=FAMILY + ['wide'], n=['any', 'first']))
def noise(c):
  eta, gam = c.real('eta', 0), c.real('gam', gen=lambda r: r.uniform(0, 2))
  tx = optax.add_noise(eta, gam, 11)
  g = c.tree('g'); key = c.key('key')
  s0 = tx.init(g)
  c.eq('init', (s0.count, s0.rng_key), (zero32(), jax.random.PRNGKey(11)))
  n = c.count('n') if c.v['n'] == 'any' else zero32()
  u, s1 = tx.update(g, s0._replace(count=n, rng_key=key))
  c.same_type('type', u, g); c.same_type('state type', s1, s0)
  k = inc(n)
  c.eq('count', s1.count, k)
  var = eta / k.astype(jnp.float32 if c.symbolic else jnp.float64) ** gam
  c.noise('noise', u, g, jnp.sqrt(var), s1.rng_key, key)
  u2, s2 = tx.update(g, s0._replace(count=n, rng_key=key))
  c.eq('reproducible', (u2, s2), (u, s1))


@contract('add_noise.seed', T, cross(tree=['nest']))
def seed(c):
  """The first key is a function of the seed only."""
  g, h = c.tree('g'), c.tree('h', like=TREES['vec'])
  for sd in (0, 1, 12345, 65536, 2**20 + 3, 2**31 - 1):
    a = optax.add_noise(0.1, 0.5, sd).init(g); b = optax.add_noise(0.2, 1.5, sd).init(h)
    c.eq('key %d' % sd, a.rng_key, b.rng_key)
    c.eq('key is the seed %d' % sd, a.rng_key, jax.random.PRNGKey(sd))
    for x in optax.noisy_sgd(0.1, 0.1, 0.5, sd).init(g):
      if hasattr(x, 'rng_key'): c.eq('noisy_sgd passes the seed %d' % sd, x.rng_key, a.rng_key)
