"""Polynomial, linear and constant schedules."""
from lib import *

S = 'optax/_src/schedule.py:'
P = [S + 'polynomial_schedule']
IM = 2**30


def cnt(c, how, name='n'):
  """The step count: an int32 array or a Python number."""
  return c.count(name) if how == 'array' else c.int(name, 0, I32MAX)


def progress(n, beg, ts):
  """min(max(n - begin, 0), steps)/steps."""
  e = jnp.clip(jnp.asarray(n) - jnp.maximum(beg, 0), 0, ts)
  return e / ts


@contract('polynomial', P, cross(count=['array', 'python'], begin=['any', 'default'], power=['real', 1, 2, 3, 0.5]))
def poly(c):
  """Any transition length and begin, positive or not; any step count >= 0."""
  a, b = c.real('init'), c.real('end')
  pw = c.real('power', 0, lo_open=True) if c.v['power'] == 'real' else c.v['power']
  ts = c.int('steps', -IM, IM)
  beg = c.int('begin', -IM, IM) if c.v['begin'] == 'any' else 0
  f = optax.polynomial_schedule(a, b, pw, ts, beg) if c.v['begin'] == 'any' else optax.polynomial_schedule(a, b, pw, ts)
  n = cnt(c, c.v['count'])
  v = jnp.asarray(f(n), None)
  tsx = jnp.maximum(ts, 1)
  p = progress(n, beg, tsx)
  b0 = jnp.maximum(beg, 0)
  e = jnp.asarray(n) - b0
  mid = (a - b) * (1 - p) ** pw + b
  c.eq('value', v, jnp.where((ts <= 0) | (e <= 0), a, jnp.where(e >= ts, b, mid)), dtype=False)
  sl = 0 if c.symbolic else 1e-5 * (abs(a) + abs(b))
  c.holds('between', (v >= jnp.minimum(a, b) - sl) & (v <= jnp.maximum(a, b) + sl))


@contract('polynomial.monotone', P, cross(power=['real', 1, 2]))
def mono(c):
  """Later values are never further from the end value."""
  a, b = c.real('init'), c.real('end')
  pw = c.real('power', 0, lo_open=True) if c.v['power'] == 'real' else c.v['power']
  ts, beg = c.int('steps', -IM, IM), c.int('begin', -IM, IM)
  f = optax.polynomial_schedule(a, b, pw, ts, beg)
  n = c.count('n', 0, IM); m = n + c.count('d', 0, IM - 1)
  v, w = jnp.asarray(f(n)), jnp.asarray(f(m))
  sl = 0 if c.symbolic else 1e-5 * (abs(a) + abs(b))
  c.holds('towards the end', jnp.where(a <= b, w >= v - sl, w <= v + sl))


@contract('linear', [S + 'linear_schedule'], cross(count=['array', 'python'], begin=['any', 'default']))
def lin(c):
  a, b = c.real('init'), c.real('end')
  ts = c.int('steps', -IM, IM)
  beg = c.int('begin', -IM, IM) if c.v['begin'] == 'any' else 0
  f = optax.linear_schedule(a, b, ts, beg) if c.v['begin'] == 'any' else optax.linear_schedule(a, b, ts)
  n = cnt(c, c.v['count'])
  p = progress(n, beg, jnp.maximum(ts, 1))
  c.eq('value', jnp.asarray(f(n)), jnp.where(ts <= 0, a, a + (b - a) * p), dtype=False)


@contract('constant', [S + 'constant_schedule'], cross(count=['array', 'python']))
def const(c):
  a = c.real('a')
  c.eq('value', jnp.asarray(optax.constant_schedule(a)(cnt(c, c.v['count']))), jnp.asarray(a), dtype=False)
