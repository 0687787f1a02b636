"""MultiSteps."""
from lib import *

T = ['optax/_src/wrappers.py:MultiSteps.init', 'optax/_src/wrappers.py:MultiSteps.update', 'optax/_src/wrappers.py:MultiSteps.has_updated']
KS = 1000
BUDGET = 420


def every(c):
  """The mini-steps per step: a constant or an arbitrary function >= 1 of the gradient step."""
  if c.v['k'] == 'sched':
    def k(step):
      v = c.opaque_fn('k', [jnp.asarray(step, jnp.int32)], jax.ShapeDtypeStruct((), jnp.int32))
      return jnp.clip(v, 1, KS)
    return k, k
  return c.v['k'], lambda step: c.v['k']


@contract('MultiSteps.update', T, cross(tree=FAMILY + ['wide'], k=['sched'], mean=[True, False], par=[True], m=['last', 'between']) + cross(tree=['nest'], k=[1, 2, 7], mean=[True, False], par=[True, False], m=['last']) + cross(tree=['nest'], k=[2, 7], mean=[True, False], par=[True, False], m=['between']))
def multi(c):
  inner = c.opaque_tx('in', special=True)
  arg, k = every(c)
  ms = optax.MultiSteps(inner, arg, use_grad_mean=c.v['mean']) if not c.v['mean'] else optax.MultiSteps(inner, arg)
  g, p, acc = c.tree('g', special=True), c.tree('p'), c.tree('acc', special=True)
  s0 = ms.init(p)
  it0 = jnp.result_type(s0.mini_step)
  c.eq('init', (s0.mini_step, s0.gradient_step, s0.acc_grads, s0.inner_opt_state),
       (jnp.zeros([], it0), jnp.zeros([], it0), tmap(jnp.zeros_like, p), inner.init(p)))
  c.eq('not updated at first', ms.has_updated(s0), jnp.asarray(False))
  gs = c.count('gs', 0, I32MAX - 1).astype(it0)
  kk = k(gs)
  m = jnp.asarray(kk - 1, it0) if c.v["m"] == 'last' else c.count('m', 0, KS).astype(it0)
  hi = kk - 2 if c.v['m'] == 'between' else kk - 1
  if not c.symbolic: m = m % jnp.maximum(hi + 1, 1)
  c.require(m <= hi)
  st = tmap(lambda x: c.array('st', x.shape, x.dtype, **(dict(special=True) if jnp.issubdtype(x.dtype, jnp.floating) else {})), s0.inner_opt_state)
  s = s0._replace(mini_step=m, gradient_step=gs, acc_grads=acc, inner_opt_state=st)
  par = (p,) if c.v['par'] else ()
  u, s1 = ms.update(g, s, *par)
  c.same_type('type', u, g); c.same_type('state type', s1, s0)
  tot = tmap(lambda a, b: a + b, acc, g)
  # the mean of the gradients since the last application; every one of the k mini-steps is in `acc`
  av = tmap(lambda t: t / kk, tot) if c.v['mean'] else tot
  iu, is_ = inner.update(av, st, *par)
  fin = m == kk - 1
  c.eq('updates', u, tmap(lambda x: jnp.where(fin, x, jnp.zeros_like(x)), iu))
  c.eq('inner state', s1.inner_opt_state, tmap(lambda a, b: jnp.where(fin, a, b), is_, st))
  c.eq('accumulator', s1.acc_grads, tmap(lambda t: jnp.where(fin, jnp.zeros_like(t), t), tot))
  c.eq('gradient step', s1.gradient_step, jnp.where(fin, gs + 1, gs).astype(it0))
  c.eq('mini step', s1.mini_step, jnp.where(fin, 0, m + 1).astype(it0))
  c.eq('has_updated', ms.has_updated(s1), fin)
  c.holds('cycle invariant', (s1.mini_step >= 0) & (s1.mini_step <= k(s1.gradient_step) - 1))


@contract('MultiSteps.cycle', T, cross(tree=SMALL, k=[1, 2, 3]))
def cycle(c):
  """k equal mini-steps produce the update and inner state of one step on the averaged gradient."""
  inner = c.opaque_tx('in')
  kk = c.v['k']
  tx = optax.MultiSteps(inner, kk).gradient_transformation()
  p = c.tree('p')
  s = tx.init(p)
  gs = [c.tree('g%d' % i) for i in range(kk)]
  for i, g in enumerate(gs):
    u, s = tx.update(g, s, p)
    if i < kk - 1:
      c.eq('zero', u, tmap(jnp.zeros_like, g))
      c.eq('inner untouched', s.inner_opt_state, inner.init(p))
  iu, is_ = inner.update(tmap(lambda *x: sum(x) / kk, *gs), inner.init(p), p)
  c.eq('update', u, iu); c.eq('inner state', s.inner_opt_state, is_)


@contract('MultiSteps.inner_opt', T, [{}])
def io(c):
  inner = optax.sgd(0.1)
  ms = optax.MultiSteps(inner, 3)
  c.check('inner_opt', ms.inner_opt is inner)
