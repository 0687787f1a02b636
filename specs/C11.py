"""trace and ema."""
from lib import *
from optax._src import transform, utils


def sdt(c, d): return jnp.dtype(d) if d is not None else None

LOW = ('float16', 'bfloat16')
ACC = [None, 'float32', 'float16', 'bfloat16']


@contract('trace', ['optax/_src/transform.py:trace', 'optax/_src/utils.py:cast_tree'],
          cross(nesterov=[False, True], acc=[None], tree=FAMILY) + cross(nesterov=[False, True], acc=ACC[1:], gd=['float32', 'bfloat16'], tree=['nest']))
def trace(c):
  d = c.real('d'); a = c.v['acc']; gd = c.v.get('gd')
  tx = optax.trace(decay=d, nesterov=c.v['nesterov'], accumulator_dtype=a)
  g = c.tree('g', dtype=gd)
  i = tx.init(g)
  sd = lambda x: jax.dtypes.canonicalize_dtype(a) if a else x.dtype
  c.eq('init', i.trace, tmap(lambda x: jnp.zeros_like(x, dtype=sd(x)), g))
  c.eq('first update', tx.update(g, i)[0], tmap(lambda g: (g + d * g if c.v['nesterov'] else g).astype(g.dtype), g))
  t = c.tree('t', like=i.trace)
  c.low = a in LOW or gd in LOW     # decay * t or (1 - decay) * g may be rounded to the lower precision
  u, s = tx.update(g, transform.TraceState(trace=t))
  w = tmap(lambda g, t: g + d * t, g, t)
  c.eq('trace', s.trace, tmap(lambda x, g: x.astype(sd(g)), w, g))
  c.eq('update', u, tmap(lambda g, x: (g + d * x if c.v['nesterov'] else x).astype(g.dtype), g, w))


@contract('ema', ['optax/_src/transform.py:ema', 'optax/_src/utils.py:cast_tree'],
          cross(debias=[False, True], acc=[None], tree=FAMILY) + cross(debias=[False, True], acc=ACC[1:], gd=['float32', 'bfloat16'], tree=['nest']))
def ema(c):
  d = rates(c, 'd'); a = c.v['acc']; gd = c.v.get('gd')
  tx = optax.ema(decay=d, debias=c.v['debias'], accumulator_dtype=a)
  g = c.tree('g', dtype=gd)
  i = tx.init(g)
  sd = lambda x: jax.dtypes.canonicalize_dtype(a) if a else x.dtype
  c.eq('init', i.ema, tmap(lambda x: jnp.zeros_like(x, dtype=sd(x)), g)); c.eq('init count', i.count, zero32())
  c.eq('first update', tx.update(g, i)[0], tmap(lambda g: (g if c.v['debias'] else (1 - d) * g).astype(g.dtype), g))
  c.low = a in LOW or gd in LOW
  e = c.tree('e', like=i.ema); n = c.count('n', hi=I32MAX - 1)
  u, s = tx.update(g, transform.EmaState(count=n, ema=e))
  w = tmap(lambda g, e: d * e + (1 - d) * g, g, e)
  c.eq('ema', s.ema, tmap(lambda x, g: x.astype(sd(g)), w, g)); c.eq('count', s.count, n + 1)
  c.eq('update', u, tmap(lambda x, g: (x / (1 - d ** (n + 1)) if c.v['debias'] else x).astype(g.dtype), w, g))


@contract('cast_tree', ['optax/_src/utils.py:cast_tree'], cross(acc=ACC, tree=['nest']))
def cast(c):
  a = c.v['acc']; g = c.tree('g')
  c.eq('cast', utils.cast_tree(g, a), tmap(lambda x: x.astype(a) if a else x, g))
