"""Adaptive gradient clipping."""
from lib import *
from optax._src import clipping

T = ['optax/_src/clipping.py:adaptive_grad_clip', 'optax/_src/clipping.py:unitwise_norm', 'optax/_src/clipping.py:unitwise_clip']
TR = {
    'ranks': [Leaf(), Leaf('a'), Leaf('a', 'b'), Leaf('a', 'b', 'c'), Leaf('a', 'b', 'c', 'd')],
    'nest': {'z': (Leaf('a', 'b'), [Leaf()]), 'a': {'y': Leaf('b'), 'n': None}},
    'units': [Leaf(1), Leaf(1, 'a'), Leaf('a', 1), Leaf(1, 1), Leaf(1, 1, 'a'), Leaf('a', 1, 1), Leaf(1, 'a', 1, 1), Leaf(1, 1, 1, 1)],
    'mixed units': [Leaf(1, 'a', 'b'), Leaf('a', 1, 'b'), Leaf('a', 'b', 1), Leaf(1, 'a', 'b', 1), Leaf('a', 1, 1, 'b'), Leaf(1, 1, 'a', 'b')],
    'long units': [Leaf(1, 1, 1, 1, 'a'), Leaf(1, 1, 1, 1, 1)],
}


def sumsq(x):
  """Squared norm of every output unit, broadcastable to x."""
  if sum(not (isinstance(d, int) and d == 1) for d in x.shape) <= 1: ax = tuple(range(x.ndim))
  elif x.ndim in (2, 3): ax = (0,)
  elif x.ndim == 4: ax = (0, 1, 2)
  else: raise ValueError('rank')
  return jnp.sum(x * x, axis=ax, keepdims=True) if ax else x * x


def norm(x): return jnp.sqrt(sumsq(x))


@contract('adaptive_grad_clip', T, cross(tree=list(TR.values()), h=['given', 'default']))
def agc(c):
  k = c.real('k', 0, lo_open=True)
  eps = c.real('eps', 0, lo_open=True) if c.v['h'] == 'given' else 1e-3
  tx = optax.adaptive_grad_clip(k, eps) if c.v['h'] == 'given' else optax.adaptive_grad_clip(k)
  g, p = c.tree('g'), c.tree('p')
  s = tx.init(p)
  u, s1 = tx.update(g, s, p)
  c.same_type('type', u, g)
  c.check('stateless', leaves(s) == [] and leaves(s1) == [])
  bound = tmap(lambda p: k * jnp.maximum(norm(p), eps), p)

  def f(g, b):
    n = norm(g)
    small = (n < 1e-6) & (n >= b)        # only for bounds under the internal 1e-6 threshold
    fac = jnp.where(n < b, 1.0, b / jnp.where(n < b, 1.0, jnp.maximum(n, 1e-30)))
    return small, g * fac
  for x, g1, b in zip(leaves(u), leaves(g), leaves(bound)):
    small, want = f(g1, b)
    c.eq('clipped', jnp.where(small, 0.0, x), jnp.where(small, 0.0, want))
    c.holds('unit norm bounded', sumsq(x) <= b * b * (1 + (0 if c.symbolic else 1e-9)))
    c.holds('direction', (x * g1 >= 0))


@contract('adaptive_grad_clip.errors', T, cross(shape=[('a', 'b', 'c', 'd', 'e'), ('a', 1, 'b', 1, 'c'), ('a', 'b', 1, 1, 1, 1)]), ones=False)
def bad(c):
  """Other ranks and missing params are refused."""
  tx = optax.adaptive_grad_clip(c.real('k', 0, lo_open=True))
  sh = tuple(d if not isinstance(d, str) or c.symbolic else 2 for d in c.v['shape'])
  x = c.array('x', sh)
  c.raises('rank', ValueError, lambda: tx.update([x], tx.init([x]), [x]))
  y = c.array('y', ('a',))
  c.raises('no params', ValueError, lambda: tx.update([y], tx.init([y]), None))
