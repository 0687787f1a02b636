"""Cross-entropy losses."""
from lib import *

S = 'optax/_src/loss.py:'
BATCH = [(), ('a',)] + ([('a', 'b')] if THOROUGH else [])


def logits(c, name, shape):
  """Any logits; in concrete runs small enough for the textbook formulas of this file not to overflow."""
  x = c.array(name, shape)
  return x if c.symbolic else jnp.clip(x, -200, 200)


@contract('sigmoid_binary_cross_entropy', [S + 'sigmoid_binary_cross_entropy'], cross(shape=BATCH + [('a', 'b')]))
def sigmoid(c):
  x, y = logits(c, 'x', c.v['shape']), c.array('y', c.v['shape'])
  r = optax.sigmoid_binary_cross_entropy(x, y)
  c.check('shape', r.shape == x.shape)
  p = 1 / (1 + jnp.exp(-x))       # sigmoid(x); 1 - p = 1 / (1 + exp(x))
  q = 1 / (1 + jnp.exp(x))
  c.eq('1 - sigmoid', q, 1 - p)
  c.eq('value', r, -y * jnp.log(p) - (1 - y) * jnp.log(q))
  c.eq('positive', optax.sigmoid_binary_cross_entropy(x, jnp.ones_like(x)), jnp.log(1 + jnp.exp(-x)))
  c.eq('negative', optax.sigmoid_binary_cross_entropy(x, jnp.zeros_like(x)), jnp.log(1 + jnp.exp(x)))


@contract('sigmoid_binary_cross_entropy.sign', [S + 'sigmoid_binary_cross_entropy'], cross(shape=[(), ('a',)]))
def sigmoid_sign(c):
  x = logits(c, 'x', c.v['shape'])
  y = c.array('y', c.v['shape'], nonneg=True)
  if not c.symbolic: y = jnp.minimum(y, 1.0)
  c.require(jnp.all(y <= 1))
  r = optax.sigmoid_binary_cross_entropy(x, y)
  c.holds('non-negative', r >= 0)


def lse(x): return jnp.log(jnp.sum(jnp.exp(x), axis=-1, keepdims=True))


@contract('softmax_cross_entropy', [S + 'softmax_cross_entropy'], cross(batch=BATCH, labels=['same', 'row']))
def softmax(c):
  b = c.v['batch']
  x = logits(c, 'x', b + ('k',))
  y = c.array('y', (b if c.v['labels'] == 'same' else ()) + ('k',))
  if b or c.v['labels'] == 'same':
    if c.v['labels'] == 'row' and b: x, y = logits(c, 'row', ('k',)), c.array('ys', b + ('k',))   # (logits broadcast to labels)
    r = optax.softmax_cross_entropy(x, y)
    c.eq('value', r, -jnp.sum(y * (x - lse(x)), axis=-1))


@contract('softmax_cross_entropy.shift', [S + 'softmax_cross_entropy'], cross(batch=BATCH))
def shift(c):
  """Unchanged by a constant per row when the labels of the row sum to one."""
  b = c.v['batch']
  x, y = logits(c, 'x', b + ('k',)), c.array('y', b + ('k',))
  s = logits(c, 's', b)
  if not c.symbolic:
    y = y.at[..., 0].add(1 - jnp.sum(y, axis=-1))
  tot = jnp.sum(y, axis=-1)
  r0, r1 = optax.softmax_cross_entropy(x, y), optax.softmax_cross_entropy(x + s[..., None], y)
  # for labels of any sum the losses differ by s*(1 - sum)*... : the shift cancels inside every term
  c.eq('shifted', r1, r0)


@contract('softmax_cross_entropy.sign', [S + 'softmax_cross_entropy'], cross(batch=BATCH))
def positive(c):
  """The loss is the sum of label times minus log-probability, and no log-probability is positive (see the lemma)."""
  b = c.v['batch']
  x, y = logits(c, 'x', b + ('k',)), c.array('y', b + ('k',), nonneg=True)
  d = lse(x) - x
  c.eq('weighted sum', optax.softmax_cross_entropy(x, y), jnp.sum(y * d, axis=-1))
  c.holds('log-probabilities', d >= (0 if c.symbolic else -1e-9 * (1 + jnp.abs(x))))


@contract('softmax_cross_entropy.sign.lemma', [], [{}])
def weighted(c):
  """Lemma: a weighted sum of non-negative numbers with non-negative weights is non-negative."""
  y, d = c.array('y', ('a', 'k'), nonneg=True), c.array('d', ('a', 'k'), nonneg=True)
  c.holds('non-negative', jnp.sum(y * d, axis=-1) >= 0)


@contract('smooth_labels', [S + 'smooth_labels'], cross(batch=BATCH))
def smooth(c):
  b = c.v['batch']
  y = c.array('y', b + ('k',)); al = c.real('alpha', 0, 1)
  r = optax.smooth_labels(y, al)
  k = y.shape[-1]
  c.eq('value', r, (1 - al) * y + al / k)
  c.check('shape', r.shape == y.shape)
  # the sum of a row: (1-alpha)*sum + alpha, hence 1 for rows that sum to one
  c.eq('row sums', jnp.sum(r, axis=-1), (1 - al) * jnp.sum(y, axis=-1) + al)


def bounded(tier, seed):
  """Bounded (not proved): see _bounded. A function that raises fails the check."""
  it = _bounded(tier, seed)
  while True:
    try: yield next(it)
    except StopIteration: return
    except Exception as e:
      yield 'losses run', 'see the other checks', False, '%s: %s' % (type(e).__name__, str(e)[:200]); return


def _bounded(tier, seed):
  """Bounded (not proved): float32 accuracy for logits of large magnitude, where the textbook formulas overflow."""
  rng = np.random.default_rng(seed)
  grid = np.array([0., 1e-3, 1., -1., 15., -15., 40., -40., 100., -100., 1e3, -1e3, 1e4, -1e4], np.float32)
  ys = np.array([0., 1., 0.25], np.float32)
  x, y = [a.ravel() for a in np.meshgrid(grid, ys)]
  r = np.asarray(optax.sigmoid_binary_cross_entropy(jnp.asarray(x), jnp.asarray(y)), np.float64)
  X = x.astype(np.float64)
  want = y * np.logaddexp(0, -X) + (1 - y) * np.logaddexp(0, X)
  ok = np.allclose(r, want, rtol=1e-4, atol=1e-6)
  yield 'sigmoid float32', '%d logits x %d labels, |logit| <= 1e4' % (grid.size, ys.size), ok, 'got %s, expected %s' % (r, want)
  n = 400 if THOROUGH else 60
  L = rng.normal(size=(n, 5)) * 10.0 ** rng.integers(-2, 5, size=(n, 1))
  Y = rng.dirichlet(np.ones(5), size=n); Y[::3] = np.eye(5)[rng.integers(0, 5, len(Y[::3]))]
  L, Y = L.astype(np.float32), Y.astype(np.float32)
  r = np.asarray(optax.softmax_cross_entropy(jnp.asarray(L), jnp.asarray(Y)), np.float64)
  l = L.astype(np.float64); m = l.max(-1, keepdims=True)
  want = -(Y * (l - m - np.log(np.exp(l - m).sum(-1, keepdims=True)))).sum(-1)
  bad = ~np.isclose(np.broadcast_to(r, want.shape) if r.shape == want.shape else np.full(want.shape, np.nan), want, rtol=1e-4, atol=1e-5 * (1 + np.abs(l).max(-1)))
  yield 'softmax float32', '%d rows of 5 classes, |logit| <= about 1e5' % n, not bad.any(), 'logits %s: got %s, expected %s' % (L[bad][:2], r.ravel()[:4], want[bad][:2])
