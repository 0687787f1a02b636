"""Stochastic gradient estimators: per-sample identities.

The function is an arbitrary smooth scalar function (uninterpreted with its derivatives), the
parameters and the key are arbitrary, the number of samples and the dimension are symbolic."""
import math
from lib import *
from optax._src import stochastic_gradient_estimators as sge
from optax._src import utils

S = 'optax/_src/stochastic_gradient_estimators.py:'
U = 'optax/_src/utils.py:'


def setup(c):
  F = c.smooth('F')
  mu, ls = c.array('mu', ('d',)), c.array('ls', ('d',))
  n = c.dim('n')
  if not c.symbolic: mu, ls = jnp.clip(mu, -9, 9), jnp.clip(ls, -3, 3)
  key = c.key('key')
  eps = jax.random.normal(key, (n,) + tuple(mu.shape))
  x = eps * jnp.exp(ls) + mu
  return F, mu, ls, n, key, eps, x


@contract('multi_normal', [U + 'multi_normal', U + 'MultiNormalDiagFromLogScale.sample', U + 'MultiNormalDiagFromLogScale.log_prob'])
def normal(c):
  F, mu, ls, n, key, eps, x = setup(c)
  d = utils.multi_normal(mu, ls)
  c.eq('samples', d.sample((n,), seed=key), x)
  y = c.array('y', ('n', 'd'))
  z = (y - mu) * jnp.exp(-ls)
  c.eq('log density', d.log_prob(y), jnp.sum(-z * z / 2 - ls - 0.5 * jnp.log(2 * jnp.pi), axis=1))
  c.eq('mean', d.params[0], mu); c.eq('log scale', d.params[1], ls); c.eq('log_scale', d.log_scale, ls)


@contract('score_function_jacobians', [S + 'score_function_jacobians'])
def score(c):
  F, mu, ls, n, key, eps, x = setup(c)
  jm, jl = optax.score_function_jacobians(F, (mu, ls), optax.multi_normal, key, n)
  f = jax.vmap(F)(x)[:, None]
  s = jnp.exp(ls)
  c.eq('mean', jm, f * (x - mu) / (s * s))
  c.eq('log scale', jl, f * (((x - mu) / s) ** 2 - 1))


@contract('pathwise_jacobians', [S + 'pathwise_jacobians'])
def path(c):
  F, mu, ls, n, key, eps, x = setup(c)
  jm, jl = optax.pathwise_jacobians(F, (mu, ls), optax.multi_normal, key, n)
  g = jax.vmap(lambda x: F.d((0,), x))(x)
  c.eq('mean', jm, g)
  c.eq('log scale', jl, g * jnp.exp(ls) * eps)


def replaced(F, x, y):
  """[n, i]: F at sample n with coordinate i replaced by y[n, i]."""
  n, d = x.shape
  e = (jnp.arange(d)[:, None] == jnp.arange(d)[None, :])
  z = jnp.where(e[None], y[:, :, None], x[:, None, :])
  return jax.vmap(jax.vmap(F))(z)


@contract('utils', [U + 'set_diags', U + 'tile_second_to_last_dim'])
def util(c):
  x = c.array('x', ('n', 'd')); y = c.array('y', ('n', 'd')); a = c.array('a', ('n', 'd', 'd'))
  t = utils.tile_second_to_last_dim(x)
  c.eq('tile', t, jnp.broadcast_to(x[:, :, None], tuple(x.shape) + (x.shape[1],)))
  e = (jnp.arange(x.shape[1])[:, None] == jnp.arange(x.shape[1])[None, :])
  c.eq('diagonals', utils.set_diags(a, y), jnp.where(e[None], y[:, :, None], a))


@contract('measure_valued_jacobians', [S + 'measure_valued_jacobians', S + 'measure_valued_estimation_mean', S + 'measure_valued_estimation_std'], cross(coupling=[True, False, 'default']))
def measure(c):
  F, mu, ls, n, key, eps, x = setup(c)
  kw = {} if c.v['coupling'] == 'default' else dict(coupling=c.v['coupling'])
  jm, jl = optax.measure_valued_jacobians(F, (mu, ls), optax.multi_normal, key, n, **kw)
  s = jnp.exp(ls)
  kp, kn = jax.random.split(key)
  sh = (n,) + tuple(mu.shape)
  wb = lambda k: jax.random.weibull_min(k, scale=math.sqrt(2.), concentration=2., shape=sh)
  wp = wb(kp); wn = wp if kw.get('coupling', True) else wb(kn)
  c.eq('mean', jm, (replaced(F, x, mu + s * wp) - replaced(F, x, mu - s * wn)) / (jnp.sqrt(2 * jnp.pi) * s))
  m = jax.random.double_sided_maxwell(kp, loc=0.0, scale=1.0, shape=sh)
  q = jax.random.uniform(kn, sh) * m if kw.get('coupling', True) else jax.random.normal(kn, sh)
  # d/d log_scale = scale * d/d scale, and the constant for the scale is the scale itself
  c.eq('log scale', jl, replaced(F, x, mu + s * m) - replaced(F, x, mu + s * q))
  c.raises('other distributions', ValueError, lambda: optax.measure_valued_jacobians(F, (mu, ls), lambda a, b: utils.multi_normal(a, b), key, n))
