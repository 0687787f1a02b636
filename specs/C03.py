"""chain."""
from lib import *


@contract('chain', ['optax/_src/combine.py:chain'], cross(n=[1, 2, 3, 5] + ([8] if THOROUGH else []), params=[True, False], tree=['nest']))
def chain(c):
  """Runs arbitrary (uninterpreted) transformations in order, each with its own state and the params."""
  n = c.v['n']
  txs = [c.opaque_tx('t%d' % i, special=True) for i in range(n)]
  p = c.tree('p'); g = c.tree('g', special=True)
  tx = optax.chain(*txs)
  s0 = tx.init(p)
  c.eq('init', list(s0), [t.init(p) for t in txs])
  # arbitrary states of the right types
  st = [c.tree('s%d' % i, like=s, special=True) if i % 2 == 0 else s for i, s in enumerate(s0)]
  st = type(s0)(st) if isinstance(s0, (list, tuple)) and not hasattr(s0, '_fields') else st
  pp = p if c.v['params'] else None
  u, s1 = tx.update(g, st, pp)
  w, ws = g, []
  for t, s in zip(txs, st):
    w, ns = t.update(w, s, pp)
    ws.append(ns)
  c.eq('updates', u, w)
  c.eq('states', list(s1), ws)


@contract('chain.associative', ['optax/_src/combine.py:chain'], cross(params=[True, False], tree=['nest']))
def assoc(c):
  """Grouping does not matter; a chain of one is its element."""
  a, b, d = [c.opaque_tx(x) for x in 'abd']
  p = c.tree('p'); g = c.tree('g')
  pp = p if c.v['params'] else None
  flat = optax.chain(a, b, d); left = optax.chain(optax.chain(a, b), d); right = optax.chain(a, optax.chain(b, d)); one = optax.chain(a)
  sf, sl, sr, so = flat.init(p), left.init(p), right.init(p), one.init(p)
  c.eq('init left', leaves(sl), leaves(sf)); c.eq('init right', leaves(sr), leaves(sf)); c.eq('init one', leaves(so), leaves(a.init(p)))
  uf, sf = flat.update(g, sf, pp); ul, sl = left.update(g, sl, pp); ur, sr = right.update(g, sr, pp)
  c.eq('left', ul, uf); c.eq('right', ur, uf)
  c.eq('left state', leaves(sl), leaves(sf)); c.eq('right state', leaves(sr), leaves(sf))
  u1, s1 = one.update(g, so, pp); ua, sa = a.update(g, a.init(p), pp)
  c.eq('one', u1, ua); c.eq('one state', leaves(s1), leaves(sa))
  # second step on the states returned by the first
  uf, sf = flat.update(uf, sf, pp); ul, sl = left.update(ul, sl, pp); ur, sr = right.update(ur, sr, pp)
  c.eq('left 2', ul, uf); c.eq('right 2', ur, uf)
  c.eq('left state 2', leaves(sl), leaves(sf)); c.eq('right state 2', leaves(sr), leaves(sf))


@contract('chain.wrong state', ['optax/_src/combine.py:chain'], cross(n=[1, 2, 3, 4], tree=['scalar']))
def wrong(c):
  """A state with another number of entries is refused."""
  n = c.v['n']
  txs = [c.opaque_tx('t%d' % i) for i in range(n)]
  p = c.tree('p'); g = c.tree('g')
  tx = optax.chain(*txs)
  one = txs[0].init(p)
  for m in range(0, n + 3):
    if m != n:
      c.raises('%d entries, tuple' % m, ValueError, lambda: tx.update(g, (one,) * m, p))
      c.raises('%d entries, list' % m, ValueError, lambda: tx.update(g, [one] * m, p))


@contract('chain.long', ['optax/_src/combine.py:chain'], cross(n=[20, 150], tree=['scalar']))
def long(c):
  """Long chains: u -> i - u (+ the state), in order."""
  n = c.v['n']
  tx = optax.chain(*[optax.GradientTransformation(lambda p, i=i: jnp.asarray(float(i)), lambda u, s, p=None, i=i: (tmap(lambda u: s - u, u), s + 1)) for i in range(n)])
  p = c.tree('p'); g = c.tree('g')
  u, st = tx.update(g, tx.init(p), p)
  w = g
  for i in range(n): w = tmap(lambda w: i - w, w)
  c.eq('updates', u, w)
  c.eq('states', list(st), [jnp.asarray(float(i + 1)) for i in range(n)])
