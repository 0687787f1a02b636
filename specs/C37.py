"""Cosine similarity and distance."""
from lib import *

T = ['optax/_src/loss.py:cosine_similarity', 'optax/_src/loss.py:cosine_distance', 'optax/_src/numerics.py:safe_norm']
BATCH = [(), ('a',), ('a', 'b')]


def norm(x): return jnp.sqrt(jnp.sum(x * x, axis=-1))


def nonzero(c, name, b):
  """Vectors along the last axis, none of them zero."""
  x = c.array(name, b + ('k',))
  if not c.symbolic: x = jnp.where(jnp.sum(x * x, axis=-1, keepdims=True) < 1e-12, 1.0, x)
  c.require(jnp.all(jnp.sum(x * x, axis=-1) > 0))
  return x


@contract('cosine', T, cross(batch=BATCH, targets=['same']) + cross(batch=[('a',)], targets=['row']))
def cosine(c):
  b = c.v['batch']
  p, t = c.array('p', b + ('k',)), c.array('t', (b if c.v['targets'] == 'same' else ()) + ('k',))
  if c.v['targets'] == 'row': p, t = t, p     # (predictions broadcast to targets)
  e = c.real('eps', 0, lo_open=True)
  s, d = optax.cosine_similarity(p, t, e), optax.cosine_distance(p, t, e)
  den = jnp.maximum(norm(p), e) * jnp.maximum(norm(t), e)
  w = jnp.sum(p * t, axis=-1)
  c.eq('similarity', s, w / den)
  c.eq('distance', d, 1 - w / den)
  c.check('shape', s.shape == w.shape and d.shape == w.shape)
  c.eq('keyword', optax.cosine_similarity(predictions=p, targets=t, epsilon=e), w / den)
  c.eq('symmetric', optax.cosine_similarity(t, p, e) if c.v['targets'] == 'same' else s, s)


@contract('cosine.default', T, cross(batch=BATCH))
def default(c):
  """epsilon 0 and nonzero vectors."""
  b = c.v['batch']
  p, t = nonzero(c, 'p', b), nonzero(c, 't', b)
  s, d = optax.cosine_similarity(p, t), optax.cosine_distance(p, t)
  c.finite('finite', (s, d))
  w = jnp.sum(p * t, axis=-1)
  c.eq('similarity', s * norm(p) * norm(t), w)
  c.eq('distance', d, 1 - s)
  c.eq('symmetric', optax.cosine_similarity(t, p), s)
  c.eq('itself', optax.cosine_similarity(p, p), jnp.ones_like(s))
  k = c.real('k', 0.001 if not c.symbolic else 0, lo_open=True)
  c.eq('scaled predictions', optax.cosine_similarity(p * k, t), s)
  c.eq('scaled targets', optax.cosine_similarity(p, t * k), s)
  # Cauchy-Schwarz: (sum p t)^2 <= sum p^2 * sum t^2
  c.holds('numerator', w * w <= jnp.sum(p * p, axis=-1) * jnp.sum(t * t, axis=-1) * (1 if c.symbolic else 1 + 1e-9))


@contract('cosine.bounds lemma', [], [{}])
def lemma(c):
  """Lemma: s*|p|*|t| = w, w^2 <= P*Q, |p| = sqrt(P) > 0, |t| = sqrt(Q) > 0 imply -1 <= s <= 1."""
  P, Q, w = c.real('P', 0, lo_open=True), c.real('Q', 0, lo_open=True), c.real('w')
  if not c.symbolic: w = max(-1.0, min(1.0, w)) * float(np.sqrt(P * Q))
  c.require(w * w <= P * Q * (1 if c.symbolic else 1 + 1e-9))
  s = w / (jnp.sqrt(P) * jnp.sqrt(Q))
  z = 0 if c.symbolic else 1e-6
  c.holds('bounds', (s <= 1 + z) & (s >= -1 - z))
