"""RAdam."""
from lib import *
from optax._src import transform


def oracle(b1, b2, eps, root, thr, t, m, v):
  rinf = 2 / (1 - b2) - 1
  b2t = b2 ** t
  ro = rinf - 2 * b2t * t / (1 - b2t)
  mh = tmap(lambda m: m / (1 - b1 ** t), m)
  vh = tmap(lambda v: v / (1 - b2t), v)
  r = jnp.sqrt((ro - 4) * (ro - 2) * rinf / ((rinf - 4) * (rinf - 2) * ro))
  return ro, tmap(lambda m, v: jnp.where(ro >= thr, r * m / (jnp.sqrt(v + root) + eps), m), mh, vh)


@contract('scale_by_radam.update', ['optax/_src/transform.py:scale_by_radam'], trees=FAMILY, depth=6)
def update(c):
  """Any threshold above 4 (below it the rectification term is undefined)."""
  b1, b2 = rates(c, 'b1', 'b2')
  eps, root = c.real('eps', 0, lo_open=True), c.real('root', 0)
  thr = c.real('thr', 4, lo_open=True)
  tx = optax.scale_by_radam(b1=b1, b2=b2, eps=eps, eps_root=root, threshold=thr)
  g = c.tree('g'); m = c.tree('m'); v = c.tree('v', nonneg=True); n = c.count('n', hi=I32MAX - 1)
  u, s = tx.update(g, transform.ScaleByAdamState(count=n, mu=m, nu=v))
  wm = ema_(b1, m, g)
  wv = tmap(lambda g, v: b2 * v + (1 - b2) * g * g, g, v)
  c.eq('mu', s.mu, wm); c.eq('nu', s.nu, wv); c.eq('count', s.count, n + 1)
  ro, w = oracle(b1, b2, eps, root, thr, n + 1, wm, wv)
  c.eq('update', u, w)


@contract('scale_by_radam.first steps', ['optax/_src/transform.py:scale_by_radam'], cross(tree=['scalar']))
def first(c):
  """Default threshold 5, from init."""
  b1, b2 = rates(c, 'b1', 'b2')
  tx = optax.scale_by_radam(b1=b1, b2=b2)
  g = c.tree('g')
  s0 = tx.init(g)
  c.eq('count', s0.count, zero32()); c.eq('mu', s0.mu, tmap(jnp.zeros_like, g)); c.eq('nu', s0.nu, tmap(jnp.zeros_like, g))
  u, _ = tx.update(g, s0)
  wm = tmap(lambda g: (1 - b1) * g, g); wv = tmap(lambda g: (1 - b2) * g * g, g)
  ro, w = oracle(b1, b2, 1e-8, 0.0, 5.0, jnp.int32(1), wm, wv)
  c.eq('update', u, w)


@contract('scale_by_radam.init', ['optax/_src/transform.py:scale_by_radam'], trees=FAMILY)
def init(c):
  p = c.tree('p')
  s = optax.scale_by_radam(b1=c.real('b1'), b2=c.real('b2', 0, 1, hi_open=True)).init(p)
  c.eq('count', s.count, zero32()); c.eq('mu', s.mu, tmap(jnp.zeros_like, p)); c.eq('nu', s.nu, tmap(jnp.zeros_like, p))
