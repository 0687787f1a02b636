"""Elementary transformations."""
from lib import *
from optax._src import transform

DT = ['float32', 'bfloat16', 'float16']


@contract('scale', ['optax/_src/transform.py:scale'], cross(dt=DT[:1], tree=FAMILY) + cross(dt=DT[1:], tree=['nest']) + cross(dt=[None], tree=['mixed']))
def scale(c):
  k = c.real('k'); g = c.tree('g', dtype=c.v['dt'])
  tx = optax.scale(k)
  u, s = tx.update(g, tx.init(g))
  c.eq('scaled', u, tmap(lambda g: g * k, g)); c.same_type('type', u, g)
  u, s = optax.identity().update(g, optax.identity().init(g))
  c.eq('identity', u, g)


@contract('identity', ['optax/_src/base.py:identity'], cross(tree=FAMILY + ['mixed']))
def ident(c):
  g = c.tree('g', special=True); tx = optax.identity()
  u, s = tx.update(g, tx.init(g), g)
  c.eq('identity', u, g)


@contract('add_decayed_weights', ['optax/_src/transform.py:add_decayed_weights'], cross(dt=DT[:1], tree=FAMILY) + cross(dt=DT[1:], tree=['nest']) + cross(dt=[None], tree=['mixed']))
def decay(c):
  k = c.real('k'); g = c.tree('g', dtype=c.v['dt']); p = c.tree('p', dtype=c.v['dt'])
  for nm in ('add_decayed_weights', 'additive_weight_decay'):
    tx = getattr(optax, nm)(k)
    u, s = tx.update(g, tx.init(p), p)
    c.eq(nm, u, tmap(lambda g, p: g + k * p, g, p)); c.same_type(nm + ' type', u, g)
    c.raises(nm + ' without params', ValueError, lambda: tx.update(g, tx.init(p), None))


@contract('scale_by_schedule', ['optax/_src/transform.py:scale_by_schedule'], cross(dt=DT[:1], tree=FAMILY) + cross(dt=DT[1:], tree=['nest']) + cross(dt=[None], tree=['mixed']))
def by_schedule(c):
  f = sched(c, 'f'); g = c.tree('g', dtype=c.v['dt']); n = c.count('n')
  tx = optax.scale_by_schedule(f)
  c.eq('init', tx.init(g).count, zero32())
  u, s = tx.update(g, transform.ScaleByScheduleState(count=n))
  c.eq('scaled', u, tmap(lambda g: (g * f(n).astype(g.dtype)), g)); c.same_type('type', u, g)
  c.eq('count', s.count, inc(n))
  u0, _ = tx.update(g, tx.init(g))
  c.eq('first', u0, tmap(lambda g: (g * f(jnp.int32(0)).astype(g.dtype)), g))


@contract('centralize', ['optax/_src/transform.py:centralize'], cross(dt=DT[:1], tree=['ranks', 'nest', 'empty']) + cross(dt=DT[1:], tree=['nest']))
def centralize(c):
  g = c.tree('g', dtype=c.v['dt']); tx = optax.centralize()
  u, s = tx.update(g, tx.init(g))
  c.same_type('type', u, g)

  def f(g):
    if g.ndim < 2: return g
    n = 1
    for d in g.shape[1:]: n = n * d
    return g - (jnp.sum(g, axis=tuple(range(1, g.ndim)), keepdims=True) / n).astype(g.dtype)
  c.eq('centred', u, tmap(f, g))
  if c.v['dt'] == 'float32':
    for x in leaves(u):
      if x.ndim >= 2:
        r = jnp.sum(x, axis=tuple(range(1, x.ndim)))
        if c.symbolic: c.eq('zero row sums', r, jnp.zeros_like(r))
        else: c.holds('zero row sums', jnp.abs(r) <= 1e-6 * (1 + jnp.sum(jnp.abs(x), axis=tuple(range(1, x.ndim)))))
