"""Structure, shapes and dtypes are kept: for every public transformation.

One variant per transformation, tree layout and dtype; dimensions are arbitrary. The types of
the second and later states follow: update maps states of one type to states of that type."""
from lib import *

BUDGET = 420
MIXED = [n for n in ZOO if n != 'inject_hyperparams']
BATCHED = [n for n in ZOO if ZOO[n].batch]
V = (cross(tx=list(ZOO), dt=['bfloat16'], tree=['nest']) + cross(tx=MIXED, dt=[None], tree=['mixed'])
     + cross(tx=list(ZOO), dt=['float32'], tree=['nest']) + cross(tx=list(ZOO), dt=['float16'], tree=['scalar'])
     + cross(tx=[n for n in ZOO if n not in BATCHED], dt=[None], tree=['empty'])
     + (cross(tx=list(ZOO), dt=['float32', 'float16', 'bfloat16'], tree=['ranks', 'wide']) if THOROUGH else []))


def compiled(c, tag, tx, g, p, s, like):
  """The same through jit (where plain numbers and arrays promote differently)."""
  r = jax.eval_shape(jax.jit(lambda g, s, p: tx.update(g, s, p)), g, s, p)
  c.same_type(tag + ' compiled updates', r[0], like)
  c.same_type(tag + ' compiled state', r[1], s)


def types_(c):
  z = ZOO[c.v['tx']]
  tx = z.make(c)
  g, p, like = zoo_args(c, z, dtype=c.v['dt'])
  s0 = tx.init(p)
  s = s0
  for k in (1, 2):
    u, s = tx.update(g, s, p)
    c.same_type('updates %d' % k, u, like)
    c.same_type('state %d' % k, s, s0)
    if not c.symbolic: compiled(c, 'step %d' % k, tx, g, p, s, like)


@contract('types', sorted({z.target for z in ZOO.values()}), V, x32=True)
def types(c): types_(c)


@contract('types of mixed trees', [ZOO['inject_hyperparams'].target], [dict(tx='inject_hyperparams', dt=None, tree='mixed')], x32=True)
def mixed(c): types_(c)


@contract('types after editing hyperparameters', [ZOO['inject_hyperparams'].target], cross(dt=['float32', 'bfloat16', 'float16'], how=['python', 'float32', 'bfloat16', 'float64'], tree=['nest']), x32=True)
def edited(c):
  """Hyperparameters in the state replaced between updates (by a number, or an array of another float type)."""
  tx = optax.inject_hyperparams(optax.adam)(learning_rate=0.5, b1=0.5, eps=0.25, b2=0.75)
  g, p = c.tree('g', dtype=c.v['dt']), c.tree('p', dtype=c.v['dt'])
  s0 = tx.init(p)
  how = c.v['how']
  mk = {'python': lambda v: v, 'float32': lambda v: jnp.asarray(v, jnp.float32), 'bfloat16': lambda v: jnp.asarray(v, jnp.bfloat16), 'float64': lambda v: np.float64(v)}[how]
  s = s0._replace(hyperparams={**s0.hyperparams, 'learning_rate': mk(0.125), 'b1': mk(0.25)})
  for k in (1, 2):
    u, s = tx.update(g, s, p)
    c.same_type('updates %d' % k, u, p)
    c.same_type('state %d' % k, s, s0)
