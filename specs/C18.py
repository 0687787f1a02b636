"""Differentially private aggregation."""
from lib import *

T = ['optax/_src/privacy.py:differentially_private_aggregate', 'optax/_src/linear_algebra.py:global_norm']
TR = {
    'nest': {'w': Leaf('B', 'a'), 'b': (Leaf('B', 'a', 'b'), None, [Leaf('B')])},
    'ranks': [Leaf('B'), Leaf('B', 'a'), Leaf('B', 'a', 'b'), Leaf('B', 'a', 'b', 'c')],
    'one': Leaf('B', 'a'),
    'scalars': [Leaf('B'), Leaf('B')],
    'fixed': {'w': Leaf(3, 'a'), 'b': Leaf(3)},
    'many': {'t%02d' % i: Leaf('B', 'a') if i % 3 else Leaf('B', 3) for i in range(70)},
    'single': {'w': Leaf(1, 'a'), 'b': Leaf(1)},
}


def tx_(c, nm=None):
  clip = c.real('clip', 0, lo_open=True)
  nm = c.real('nm', 0) if nm is None else nm
  return clip, nm, optax.differentially_private_aggregate(clip, nm, 5)


def clipped_sum(g, clip):
  sq = sum(jnp.sum((x * x).reshape(x.shape[0], -1), axis=1) if x.ndim > 1 else x * x for x in leaves(g))
  n = jnp.sqrt(sq)
  w = 1 / jnp.maximum(1.0, n / clip)
  return tmap(lambda x: jnp.sum(x * w.reshape((-1,) + (1,) * (x.ndim - 1)), axis=0), g), w, sq


@contract('dp_aggregate', T, cross(tree=list(TR.values())))
def agg(c):
  clip, nm, tx = tx_(c)
  g = c.tree('g'); key = c.key('key')
  s0 = tx.init(tmap(lambda x: x[0], g))
  c.eq('init key', s0.rng_key, jax.random.PRNGKey(5))
  u, s1 = tx.update(g, s0._replace(rng_key=key))
  like = tmap(lambda x: x[0], g)
  c.same_type('type', u, like)
  tot, w, sq = clipped_sum(g, clip)
  B = leaves(g)[0].shape[0]
  inv = 1.0 / (jnp.asarray(B).astype(jnp.float32) if c.symbolic else B)
  c.noise('aggregate', u, tmap(lambda t: (t * inv).astype(t.dtype), tot), clip * nm * inv, s1.rng_key, key)
  # one example contributes at most clip in joint norm: |w_i g_i|^2 = w_i^2 |g_i|^2 <= clip^2
  c.holds('sensitivity', w * w * sq <= clip * clip * (1 + (0 if c.symbolic else 1e-9)))


@contract('dp_aggregate.no noise', T, cross(tree=list(TR.values())))
def quiet(c):
  """With noise multiplier 0 exactly the clipped mean is returned."""
  clip, nm, tx = tx_(c, 0.0)
  g = c.tree('g'); key = c.key('key')
  u, s1 = tx.update(g, optax.DifferentiallyPrivateAggregateState(rng_key=key))
  tot, _, _ = clipped_sum(g, clip)
  c.eq('clipped mean', u, tmap(lambda t: t / leaves(g)[0].shape[0], tot))


BAD = [[Leaf('B'), Leaf()], {'w': Leaf(2, 'a'), 'b': Leaf(3)}, [Leaf(3, 'a'), Leaf(3), Leaf(1)], [Leaf(2), Leaf(2), Leaf(4, 2)], [Leaf(1, 3), Leaf(3)]]
BAD += [[Leaf(3, 2) if i != k else Leaf(*s) for i in range(6)] for k in range(6) for s in ((), (1, 2), (2,))]
BAD += [[Leaf('B', 'a') if i != k else Leaf() for i in range(30)] for k in (3, 17, 29)]


@contract('dp_aggregate.errors', T, cross(tree=BAD))
def bad(c):
  _, _, tx = tx_(c)
  g = c.tree('g')
  c.raises('no common batch axis', ValueError, lambda: tx.update(g, optax.DifferentiallyPrivateAggregateState(rng_key=c.key('key'))))


@contract('dp_aggregate.seed', T, cross(tree=['nest']))
def seed(c):
  """The first key is a function of the seed only."""
  g, h = c.tree('g'), c.tree('h', like=TREES['vec'])
  for sd in (0, 1, 12345, 65536, 2**20 + 3, 2**31 - 1):
    a = optax.differentially_private_aggregate(1.0, 0.5, sd).init(g)
    c.eq('key is the seed %d' % sd, a.rng_key, jax.random.PRNGKey(sd))
    c.eq('key %d' % sd, optax.differentially_private_aggregate(2.0, 1.5, sd).init(h).rng_key, a.rng_key)
    for x in optax.dpsgd(0.1, 1.0, 0.5, sd).init(g):
      if hasattr(x, 'rng_key'): c.eq('dpsgd passes the seed %d' % sd, x.rng_key, a.rng_key)
