"""apply_every."""
from lib import *
from optax._src import transform

T = ['optax/_src/transform.py:apply_every']


@contract('apply_every', T, cross(tree=FAMILY + ['wide'], k=['any']) + cross(tree=['nest'], k=[1, 2, 5, 'default']))
def every(c):
  """Ghost G: the sum of the gradients since the last emission.  Invariant: 0 <= count < k and
  (count != 0 -> accumulator = G); at count 0 the accumulator may hold anything."""
  k = c.int('k', 1, I32MAX) if c.v['k'] == 'any' else 1 if c.v['k'] == 'default' else c.v['k']
  tx = optax.apply_every() if c.v['k'] == 'default' else optax.apply_every(k)
  g, p, G, junk = c.tree('g'), c.tree('p'), c.tree('G'), c.tree('junk')
  s0 = tx.init(p)
  c.eq('init', (s0.count, s0.grad_acc), (zero32(), tmap(jnp.zeros_like, p)))
  n = c.count('n')
  if not c.symbolic: n = n % k
  c.require(n < k)
  G = tmap(lambda G: jnp.where(n == 0, 0.0, G).astype(G.dtype), G)
  s = s0._replace(count=n, grad_acc=tmap(lambda G, j: jnp.where(n == 0, j, G), G, junk))
  u, s1 = tx.update(g, s, p)
  c.same_type('type', u, g); c.same_type('state type', s1, s0)
  tot = tmap(lambda a, b: a + b, G, g)
  emit = n == k - 1
  c.eq('update', u, tmap(lambda t: jnp.where(emit, t, jnp.zeros_like(t)), tot))
  c.eq('count', s1.count, jnp.where(emit, 0, n + 1).astype(jnp.int32))
  c.holds('count range', (s1.count >= 0) & (s1.count < k))
  c.eq('accumulator', tmap(lambda a: jnp.where(emit, 0, a).astype(a.dtype), s1.grad_acc), tmap(lambda t: jnp.where(emit, 0, t).astype(t.dtype), tot))


@contract('apply_every.cycles', T, cross(tree=['nest'], k=[1, 2, 3]))
def cycles(c):
  """Two whole cycles from init."""
  k = c.v['k']
  tx = optax.apply_every(k)
  p = c.tree('p')
  s = tx.init(p)
  last = []
  for i in range(2 * k):
    g = c.tree('g%d' % i)
    u, s = tx.update(g, s)
    last.append(g)
    want = tmap(lambda *x: sum(x), *last[-k:]) if (i + 1) % k == 0 else tmap(jnp.zeros_like, g)
    c.eq('call %d' % i, u, want)
