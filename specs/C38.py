"""Global norm and safe norm."""
from lib import *
from optax._src import numerics, linear_algebra

TG = ['optax/_src/linear_algebra.py:global_norm']
TS = ['optax/_src/numerics.py:safe_norm']


def sumsq(t): return sum([jnp.sum(x * x) for x in leaves(t)], 0.0)


@contract('global_norm', TG, cross(tree=['nest', 'scalar', 'ranks', 'wide', 'pair', 'empty']))
def gn(c):
  g = c.tree('g')
  r = jnp.asarray(optax.global_norm(g))
  S = sumsq(g)
  c.check('scalar', r.shape == ())
  c.eq('value', r, jnp.sqrt(S), dtype=False)
  c.holds('non-negative', r >= 0)
  if c.v['tree'] != 'wide' or not c.symbolic:
    k = c.real('k')
    c.eq('scaled', jnp.asarray(optax.global_norm(tmap(lambda x: x * k, g))), jnp.abs(k) * r, dtype=False)
  for n, x in enumerate(leaves(g)):
    c.holds('zero only for zero trees', jnp.logical_or(r > 0, jnp.all(x == 0)))


@contract('global_norm.shared', TG)
def shared(c):
  """The same array at several leaves counts once per leaf."""
  x, y = c.array('x', ('a', 'b')), c.real('y')
  y = jnp.asarray(y)
  r = jnp.asarray(optax.global_norm({'w': x, 'tied': [x, (y, y)], 'y': y}))
  c.eq('value', r, jnp.sqrt(2 * jnp.sum(x * x) + 3 * y * y), dtype=False)


@contract('safe_norm', TS, cross(shape=[(), ('a',), ('a', 'b')] + ([('a', 'b', 'c')] if THOROUGH else [])))
def sn(c):
  x = c.array('x', c.v['shape']); m = c.real('m', 0)
  r = numerics.safe_norm(x, m)
  n = jnp.sqrt(jnp.sum(x * x))
  c.check('scalar', jnp.shape(r) == ())
  c.eq('value', r, jnp.maximum(n, m), dtype=False)
  c.holds('at least min_norm', r >= m)


@contract('safe_norm.gradient', TS, cross(shape=[(), ('a',), ('a', 'b')] + ([('a', 'b', 'c')] if THOROUGH else [])))
def grad(c):
  x = c.array('x', c.v['shape']); m = c.real('m', 0)
  g = jax.grad(lambda x: numerics.safe_norm(x, m))(x)
  c.finite('finite', g)
  n = jnp.sqrt(jnp.sum(x * x))
  above = n > m
  c.eq('gradient', g, jnp.where(above, x / jnp.where(above, n, 1.0), 0.0))
