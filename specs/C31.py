"""Cosine decay and warmup schedules."""
from lib import *
S = 'optax/_src/schedule.py:'
IM = 2**30 - 1


def half(x): return (1 + jnp.cos(jnp.pi * x)) / 2


@contract('cosine_decay', [S + 'cosine_decay_schedule'], cross(alpha=['any', 'default'], count=['array', 'python']))
def cosine(c):
  a = c.real('init'); al = c.real('alpha') if c.v['alpha'] == 'any' else 0.0
  ds = c.int('steps', 1, IM)
  f = optax.cosine_decay_schedule(a, ds, al) if c.v['alpha'] == 'any' else optax.cosine_decay_schedule(a, ds)
  n = c.count('n') if c.v['count'] == 'array' else c.int('n', 0, I32MAX)
  v = jnp.asarray(f(n))
  e = jnp.minimum(jnp.asarray(n), ds)
  c.eq('value', v, a * ((1 - al) * half(e / ds) + al), dtype=False)
  c.eq('held', jnp.asarray(f(ds + c.count('late', 0, IM - 1))), jnp.asarray(a * al), dtype=False)
  c.eq('start', jnp.asarray(f(0)), jnp.asarray(a), dtype=False)
  c.eq('end', jnp.asarray(f(ds)), jnp.asarray(a * al), dtype=False)


@contract('cosine_decay.errors', [S + 'cosine_decay_schedule'], [{}])
def bad(c):
  ds = c.int('steps', -IM, 0)
  c.raises('non-positive', ValueError, lambda: optax.cosine_decay_schedule(c.real('a'), ds))


def warm(a, b, w, n):
  """Linear from a to b over w steps (a at once b if w <= 0 and n >= w)."""
  return a + (b - a) * n / jnp.maximum(w, 1)


@contract('warmup_cosine_decay', [S + 'warmup_cosine_decay_schedule'], cross(end=['any', 'default']))
def wcos(c):
  a, b = c.real('init'), c.real('peak', nonzero=True)
  end = c.real('end') if c.v['end'] == 'any' else 0.0
  w, d = c.int('warmup', 1, IM), c.int('cosine', 1, IM)
  ds = w + d
  f = optax.warmup_cosine_decay_schedule(a, b, w, ds, end) if c.v['end'] == 'any' else optax.warmup_cosine_decay_schedule(a, b, w, ds)
  n = c.count('n')
  v = f(n)
  m = n - w
  want = jnp.where(n < w, warm(a, b, w, n), jnp.where(m >= d, end, (b - end) * half(jnp.minimum(m, d) / d) + end))
  c.eq('value', v, want, dtype=False)
  c.eq('peak', f(w), jnp.asarray(b), dtype=False)
  c.eq('end', f(ds), jnp.asarray(end), dtype=False)


@contract('warmup_exponential_decay', [S + 'warmup_exponential_decay_schedule'], cross(begin=['any', 'default'], stair=[True, False, 'default'], end=[True, False]))
def wexp(c):
  a, b, r = c.real('init'), c.real('peak'), c.real('rate', 0, lo_open=True)
  w, ts = c.int('warmup', 1, IM), c.int('steps', 1, IM)
  kw = {}
  if c.v['begin'] == 'any': kw['transition_begin'] = c.int('begin', 0, IM)
  if c.v['stair'] != 'default': kw['staircase'] = c.v['stair']
  if c.v['end']: kw['end_value'] = c.real('end')
  n = c.count('n')
  v = optax.warmup_exponential_decay_schedule(a, b, w, ts, r, **kw)(n)
  e = n - w - kw.get('transition_begin', 0)
  p = e / ts
  if c.v['stair'] is True: p = jnp.floor(p)
  d = jnp.where(e <= 0, b, b * r ** jnp.where(e <= 0, 0.0, p))
  if c.v['end']: d = jnp.where(r < 1, jnp.maximum(d, kw['end_value']), jnp.minimum(d, kw['end_value']))
  c.eq('value', v, jnp.where(n < w, warm(a, b, w, n), d), dtype=False)
