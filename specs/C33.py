"""Joined schedules."""
import itertools
from lib import *
S = 'optax/_src/schedule.py:'
IM = 2**28


def bounds(c, k):
  b = [c.int('b%d' % i, 0, IM) for i in range(k)]
  if not c.symbolic:
    b = sorted(b)
    for i in range(1, k): b[i] = max(b[i], b[i - 1] + 1)
  for x, y in itertools.combinations(b, 2): c.require(x < y)
  return b


def opaque(c, name):
  like = jax.ShapeDtypeStruct((), jnp.float32 if c.symbolic else jnp.float64)
  return lambda n: c.opaque_fn(name, [jnp.asarray(n, jnp.int32)], like)


@contract('join_schedules', [S + 'join_schedules'], cross(k=[1, 2, 3, 4, 7] + ([5, 12] if THOROUGH else []), how=[list, tuple]))
def join(c):
  """The schedules are arbitrary functions of the step."""
  k = c.v['k']
  fs = [opaque(c, 'f%d' % i) for i in range(k)]
  b = bounds(c, k - 1)
  f = optax.join_schedules(c.v['how'](fs), c.v['how'](b))
  n = c.count('n', 0, IM)
  v = f(n)
  want = fs[-1](n - (b[-1] if b else 0))
  for i in range(k - 2, -1, -1):
    want = jnp.where(n < b[i], fs[i](n - (b[i - 1] if i else 0)), want)
  c.eq('value', v, want)


@contract('sgdr', [S + 'sgdr_schedule'], cross(k=[1, 2, 3], how=['list', 'iterator']))
def sgdr(c):
  """Cycle i is its warmup-cosine schedule (C31) on the steps since the end of cycle i-1."""
  kws = []
  for i in range(c.v['k']):
    w, d = c.int('w%d' % i, 1, IM), c.int('d%d' % i, 1, IM)
    kws.append(dict(init_value=c.real('i%d' % i), peak_value=c.real('p%d' % i, nonzero=True), warmup_steps=w, decay_steps=w + d, end_value=c.real('e%d' % i)))
  f = optax.sgdr_schedule(kws if c.v['how'] == 'list' else iter(kws))
  n = c.count('n', 0, IM)
  v = f(n)
  want, end = None, 0
  parts = []
  for kw in kws:
    start = end; end = end + kw['decay_steps']
    parts.append((end, optax.warmup_cosine_decay_schedule(**kw)(n - start)))
  want = parts[-1][1]
  for e, x in reversed(parts[:-1]): want = jnp.where(n < e, x, want)
  c.eq('value', v, want)
