"""flatten."""
from lib import *

T = ['optax/_src/wrappers.py:flatten']
TR = ['nest', 'ranks', 'scalar', 'vec', 'pair', 'wide', 'mixed']


def size(x):
  n = 1
  for d in x.shape: n = n * d
  return n


def flat(t):
  """Every element of every leaf once, in leaf order."""
  L = leaves(t)
  return jnp.concatenate([x.reshape((size(x),)) for x in L]) if L else jnp.zeros([0])


def part(v, t):
  """The piece of the vector v that belongs to each leaf."""
  out, off = [], 0
  for x in leaves(t):
    n = size(x)
    out.append(jax.lax.slice(v, (off,), (off + n,)).reshape(x.shape).astype(x.dtype))
    off = off + n
  return jax.tree_util.tree_unflatten(struct(t), out)


@contract('flatten', T, cross(tree=TR, par=[True]) + cross(tree=['nest', 'empty'], par=[True, False]))
def fl(c):
  inner = c.opaque_tx('in', special=True)
  tx = optax.flatten(inner)
  g, p = c.tree('g', special=True), c.tree('p', special=True)
  s0 = tx.init(p)
  c.eq('init', s0, inner.init(flat(p)))
  st = tmap(lambda x: c.array('st', x.shape, x.dtype), s0)
  u, s1 = tx.update(g, st, p) if c.v['par'] else tx.update(g, st)
  iu, is_ = inner.update(flat(g), st, *([flat(p)] if c.v['par'] else []))
  c.same_type('type', u, g)
  c.eq('inner state', s1, is_)
  c.eq('updates', u, part(iu, g))


INNER = {
    'adam': lambda c: optax.scale_by_adam(*rates(c, 'b1', 'b2'), eps=c.real('eps', 0, lo_open=True)),
    'trace': lambda c: optax.trace(rates(c, 'd'), nesterov=True),
    'rms': lambda c: optax.scale_by_rms(rates(c, 'd'), c.real('eps', 0, lo_open=True)),
    'decay': lambda c: optax.add_decayed_weights(c.real('k')),
    'clip': lambda c: optax.clip(c.real('k', 0)),
    'nonneg': lambda c: optax.keep_params_nonnegative(),
    'chain': lambda c: optax.chain(optax.ema(rates(c, 'd')), optax.scale(c.real('k'))),
}


@contract('flatten.elementwise', T, cross(inner=list(INNER), tree=['nest', 'ranks'] if THOROUGH else ['nest']))
def elementwise(c):
  """Wrapping an elementwise transformation changes neither its updates nor (up to reshaping) its state."""
  inner = INNER[c.v['inner']](c)
  tx = optax.flatten(inner)
  g, p = c.tree('g'), c.tree('p')
  s_w, s_f = inner.init(p), tx.init(p)
  # an arbitrary state of the inner transformation, and its flat image
  def arb(a, b):
    if struct(a) == struct(p): 
      x = c.tree('st', p, nonneg=True)
      return x, flat(x)
    if isinstance(a, (tuple, list)):
      r = [arb(x, y) for x, y in zip(a, b)]
      mk = (lambda t, v: type(t)(*v)) if hasattr(a, '_fields') else (lambda t, v: type(t)(v))
      return mk(a, [x for x, _ in r]), mk(b, [y for _, y in r])
    n = c.count('n', 0, I32MAX - 1)
    return n, n
  a, b = arb(s_w, s_f)
  uw, sw = inner.update(g, a, p)
  uf, sf = tx.update(g, b, p)
  c.eq('updates', uf, uw)

  def cmp(x, y):
    if struct(x) == struct(p): c.eq('state', y, flat(x))
    elif isinstance(x, (tuple, list)):
      for i, j in zip(x, y): cmp(i, j)
    else: c.eq('counter', y, x)
  cmp(sw, sf)
  cmp(s_w, s_f)
