"""SM3."""
from lib import *
from optax._src import transform

TR = ['ranks', 'nest', 'scalar', 'empty'] + (['wide', 'pair', 'vec'] if THOROUGH else [])
SM3 = ['optax/_src/transform.py:scale_by_sm3']


def others(i, n): return tuple(j for j in range(n) if j != i)


def along(v, i, n): return jnp.reshape(v, [1] * i + [v.shape[0]] + [1] * (n - i - 1))


def cover(mu, g):
  """Element-wise minimum over the axes' accumulators."""
  if g.ndim < 2: return jnp.reshape(mu[0], g.shape)
  r = along(mu[0], 0, g.ndim)
  for i in range(1, g.ndim): r = jnp.minimum(r, along(mu[i], i, g.ndim))
  return r


def axes_max(a):
  if a.ndim < 2: return [jnp.reshape(a, [-1])]
  return [jnp.max(a, axis=others(i, a.ndim)) for i in range(a.ndim)]


def accumulators(c, g, name):
  """Arbitrary non-negative accumulators, one list per leaf."""
  def one(k, x):
    if x.ndim == 0: return [c.array('%s%d' % (name, k), (1,), nonneg=True)]
    return [c.array('%s%d.%d' % (name, k, i), (d,), nonneg=True) for i, d in enumerate(x.shape)]
  return jax.tree_util.tree_unflatten(struct(g), [one(k, x) for k, x in enumerate(leaves(g))])


def up(tree, like): return jax.tree_util.tree_structure(like).flatten_up_to(tree)


@contract('scale_by_sm3.update', SM3, variants=cross(b2=['any', 'one']), trees=TR)
def update(c):
  b1 = c.real('b1', 0, 1, hi_open=True)
  b2 = c.real('b2', 0, 1) if c.v['b2'] == 'any' else 1.0
  eps = c.real('eps', 0)
  tx = optax.scale_by_sm3(b1=b1, b2=b2, eps=eps)
  g, m = c.tree('g'), c.tree('m')
  mu = accumulators(c, g, 'mu')
  s0 = transform.ScaleBySM3State(mu=mu, nu=m)
  u, s = tx.update(g, s0)
  c.check('state structure', struct(s) == struct(s0))
  c1 = jnp.where(b2 == 1.0, 1.0, 1.0 - b2)
  for k, (x, v, m0, r, v1, m1) in enumerate(zip(leaves(g), up(mu, g), leaves(m), leaves(u), up(s.mu, g), leaves(s.nu))):
    a = c1 * x * x + b2 * cover(v, x)
    p = jnp.where(a > 0, x / jnp.sqrt(jnp.where(a > 0, a + eps, 1.0)), 0.0)
    c.eq('output[%d]' % k, r, b1 * m0 + (1 - b1) * p)
    c.eq('stored average[%d]' % k, m1, r)
    c.check('accumulators[%d]' % k, len(v1) == max(x.ndim, 1), 'one vector per axis')
    c.eq('accumulator[%d]' % k, v1, axes_max(a))
    for w in v1: c.holds('non-negative[%d]' % k, w >= 0)


@contract('scale_by_sm3.cover', SM3, trees=TR)
def covering(c):
  """b2 = 1, induction over the history: ghost S = sum of squared gradients so far,
  ghost A = previous per-element preconditioner with S <= A; the state is the axis maxima of A."""
  tx = optax.scale_by_sm3(b1=0.9, b2=1.0, eps=1e-8)
  g, S = c.tree('g'), c.tree('S', nonneg=True)
  A = tmap(lambda s, d: s + d, S, c.tree('d', nonneg=True))
  mu = tmap(axes_max, A)
  u, s = tx.update(g, transform.ScaleBySM3State(mu=mu, nu=c.tree('m')))
  for k, (x, s0, v, v1) in enumerate(zip(leaves(g), leaves(S), up(mu, g), up(s.mu, g))):
    c.holds('covered[%d]' % k, cover(v, x) + x * x >= s0 + x * x)
    c.holds('new state covers[%d]' % k, cover(v1, x) >= s0 + x * x)
    for i, (w0, w1) in enumerate(zip(v, v1)): c.holds('never decreases[%d.%d]' % (k, i), w1 >= w0)


@contract('scale_by_sm3.init', SM3, trees=TR)
def init(c):
  p = c.tree('p')
  s = optax.scale_by_sm3(b1=c.real('b1'), b2=c.real('b2')).init(p)
  c.eq('average', s.nu, tmap(jnp.zeros_like, p))
  c.eq('accumulators', s.mu, tmap(lambda x: [jnp.zeros(d, x.dtype) for d in (x.shape or (1,))], p))
