"""Lookahead."""
from lib import *
from optax._src import lookahead as la

T = ['optax/_src/lookahead.py:lookahead', 'optax/_src/lookahead.py:_lookahead_update', 'optax/_src/lookahead.py:LookaheadParams.init_synced']


def where(b, x, y): return tmap(lambda x, y: jnp.where(b, x, y), x, y)


@contract('lookahead', T, cross(tree=FAMILY + ['wide'], k=['any'], reset=[True, False, 'default']) + cross(tree=['nest'], k=[1, 2, 5], reset=[True, False]) + cross(tree=['mixed'], k=['any'], reset=[True, False]))
def look(c):
  """The fast optimizer is opaque: it must see the fast parameters and its state (float and integer leaves) is kept."""
  fast = c.opaque_tx('fast')
  k = c.int('k', 1, I32MAX) if c.v['k'] == 'any' else c.v['k']
  al = c.real('al')
  reset = c.v['reset']
  tx = optax.lookahead(fast, k, al) if reset == 'default' else optax.lookahead(fast, k, al, reset)
  g, pf, ps = c.tree('g'), c.tree('pf'), c.tree('ps')
  P = optax.LookaheadParams(fast=pf, slow=ps)
  s0 = tx.init(P)
  c.eq('init', s0, la.LookaheadState(fast.init(pf), zero32()))
  c.eq('init from fast parameters', tx.init(pf) if not hasattr(pf, 'fast') else s0, s0)
  n = c.count('n')
  if not c.symbolic: n = n % k
  c.require(n < k)
  st = tmap(lambda x: c.array('st', x.shape, x.dtype), s0.fast_state)
  u, s1 = tx.update(g, la.LookaheadState(st, n), P)
  iu, is_ = fast.update(g, st, pf)
  sync = n == k - 1
  c.check('pair', isinstance(u, optax.LookaheadParams))
  diff = tmap(lambda f, u, s: f + u - s, pf, iu, ps)
  nslow = tmap(lambda s, d: s + al * d, ps, diff)
  if c.v['tree'] != 'mixed':
    c.eq('fast parameters', tmap(lambda a, b: a + b, pf, u.fast), where(sync, nslow, tmap(lambda a, b: a + b, pf, iu)))
    c.eq('slow parameters', tmap(lambda a, b: a + b, ps, u.slow), where(sync, nslow, ps))
  c.eq('fast updates between', where(sync, tmap(jnp.zeros_like, iu), u.fast), where(sync, tmap(jnp.zeros_like, iu), iu))
  c.same_type('type', u, optax.LookaheadParams(fast=g, slow=g)); c.same_type('state type', s1, s0)
  c.eq('cycle', s1.steps_since_sync, jnp.where(sync, 0, n + 1).astype(jnp.int32))
  c.eq('fast state', s1.fast_state, where(sync, fast.init(pf), is_) if reset is True else is_)


@contract('lookahead.misc', T, cross(tree=['nest']))
def misc(c):
  p = c.tree('p')
  s = optax.LookaheadParams.init_synced(p)
  c.eq('fast', s.fast, p); c.eq('slow', s.slow, p)
  for k in (0, -1, -7):
    c.raises('period %d' % k, ValueError, lambda: optax.lookahead(optax.sgd(0.1), k, 0.5))
