"""maybe_update."""
from lib import *

T = ['optax/_src/wrappers.py:maybe_update']


@contract('maybe_update', T, cross(tree=FAMILY + ['wide'], dt=['float32'], par=[True, False]) + cross(tree=['nest'], dt=['bfloat16'], par=[True]) + cross(tree=['mixed'], dt=[None], par=[True]))
def maybe(c):
  inner = c.opaque_tx('in', special=True)
  calls = []

  def pred(step):
    calls.append(step)
    return c.opaque_fn('pred', [jnp.asarray(step, jnp.int32)], jax.ShapeDtypeStruct((), jnp.bool_))
  tx = optax.maybe_update(inner, pred)
  g, p = c.tree('g', special=True, dtype=c.v['dt']), c.tree('p', dtype=c.v['dt'])
  s0 = tx.init(p)
  it0 = jnp.result_type(s0.step)
  c.eq('init', (s0.step, s0.inner_state), (jnp.zeros([], it0), inner.init(p)))
  n = c.count('n', 0, I32MAX - 1).astype(it0)
  st = tmap(lambda x: c.array('st', x.shape, x.dtype, **(dict(special=True) if jnp.issubdtype(x.dtype, jnp.floating) else {})), s0.inner_state)
  par = (p,) if c.v['par'] else ()
  u, s1 = tx.update(g, s0._replace(step=n, inner_state=st), *par)
  iu, is_ = inner.update(g, st, *par)
  b = c.opaque_fn('pred', [jnp.asarray(n, jnp.int32)], jax.ShapeDtypeStruct((), jnp.bool_))
  c.eq('updates', u, tmap(lambda a, b_: jnp.where(b, a, b_), iu, g))
  c.eq('inner state', s1.inner_state, tmap(lambda a, b_: jnp.where(b, a, b_), is_, st))
  c.eq('step', s1.step, (n + 1).astype(it0))
  c.same_type('type', u, g); c.same_type('state type', s1, s0)
  c.check('predicate asked', len(calls) >= 1)
