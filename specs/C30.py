"""Exponential decay."""
from lib import *

T = ['optax/_src/schedule.py:exponential_decay']
IM = 2**30


@contract('exponential_decay', T, cross(begin=['any', 'default'], stair=[True, False, 'default'], end=[True, False], count=['array', 'python']))
def expd(c):
  """Any transition length and begin (positive or not), any rate >= 0, any count >= 0."""
  a, r = c.real('init'), c.real('rate', 0)
  ts = c.int('steps', -IM, IM)
  kw = {}
  if c.v['begin'] == 'any': kw['transition_begin'] = c.int('begin', -IM, IM)
  if c.v['stair'] != 'default': kw['staircase'] = c.v['stair']
  if c.v['end']: kw['end_value'] = c.real('end')
  n = c.count('n') if c.v['count'] == 'array' else c.int('n', 0, I32MAX)
  v = jnp.asarray(optax.exponential_decay(a, ts, r, **kw)(n))
  beg = jnp.maximum(kw.get('transition_begin', 0), 0)
  e = jnp.asarray(n) - beg
  p = e / jnp.maximum(ts, 1)
  if c.v['stair'] is True: p = jnp.floor(p)
  off = (ts <= 0) | (r == 0)
  rr = jnp.where(off, 1.0, r)
  d = jnp.where(e <= 0, a, a * rr ** jnp.where(e <= 0, 0.0, p))
  if not c.symbolic: c.require(jnp.isfinite(rr ** jnp.where(e <= 0, 0.0, p)))   # 0 * inf in floats
  if c.v['end']: d = jnp.where(r < 1, jnp.maximum(d, kw['end_value']), jnp.minimum(d, kw['end_value']))
  c.eq('value', v, jnp.where(off, a, d), dtype=False)
  if c.v['end']:
    c.holds('bound', off | jnp.where(r < 1, v >= kw['end_value'], v <= kw['end_value']))
