"""Counters."""
from lib import *
from optax._src import transform, numerics, schedule

M = {
    'adam': (lambda c: optax.scale_by_adam(b1=c.real('b1', 0, 1), b2=c.real('b2', 0, 1)), lambda n, g: transform.ScaleByAdamState(n, g, g)),
    'belief': (lambda c: optax.scale_by_belief(b1=c.real('b1', 0, 1), b2=c.real('b2', 0, 1)), lambda n, g: transform.ScaleByBeliefState(n, g, g)),
    'yogi': (lambda c: optax.scale_by_yogi(b1=c.real('b1', 0, 1), b2=c.real('b2', 0, 1)), lambda n, g: transform.ScaleByAdamState(n, g, g)),
    'radam': (lambda c: optax.scale_by_radam(b1=c.real('b1', 0, 1), b2=c.real('b2', 0, 1, hi_open=True)), lambda n, g: transform.ScaleByAdamState(n, g, g)),
    'ema': (lambda c: optax.ema(c.real('d', 0, 1)), lambda n, g: transform.EmaState(n, g)),
    'ema_nodebias': (lambda c: optax.ema(c.real('d', 0, 1), debias=False), lambda n, g: transform.EmaState(n, g)),
    'schedule': (lambda c: optax.scale_by_schedule(sched(c, 'f')), lambda n, g: transform.ScaleByScheduleState(n)),
    'noise': (lambda c: optax.add_noise(c.real('eta', 0), c.real('gamma', 0), 3), lambda n, g: transform.AddNoiseState(n, jax.random.PRNGKey(7))),
    'inject': (lambda c: optax.inject_hyperparams(optax.sgd)(sched(c, 'f')), None),
}


@contract('safe_int32_increment', ['optax/_src/numerics.py:safe_int32_increment'])
def increment(c):
  """Successor, saturating at the maximum; never negative from a non-negative count."""
  n = c.count('n', lo=-2**31)
  r = numerics.safe_int32_increment(n)
  c.eq('value', r, jnp.where(n == I32MAX, I32MAX, jnp.minimum(n, I32MAX - 1) + 1).astype(jnp.int32))
  c.holds('no wrap', r >= n)
  c.check('int32 scalar', r.shape == () and r.dtype == jnp.int32)


@contract('counting transformations', ['optax/_src/transform.py:' + x for x in
          ['scale_by_adam', 'scale_by_belief', 'scale_by_yogi', 'scale_by_radam', 'ema', 'scale_by_schedule', 'add_noise']] + ['optax/_src/schedule.py:inject_hyperparams'],
          cross(tx=list(M), tree=SMALL))
def counters(c):
  """count starts at int32 zero and becomes its saturating successor."""
  mk, st = M[c.v['tx']]
  tx = mk(c)
  g = c.tree('g', nonneg=True)
  s0 = tx.init(g)
  c.eq('init', s0.count, zero32())
  n = c.count('n')
  s = s0._replace(count=n) if st is None else st(n, g)
  _, s1 = tx.update(g, s, g)
  c.eq('count', s1.count, inc(n))
  c.holds('stays non-negative', s1.count >= 0)
  c.check('int32 scalar', s1.count.shape == () and s1.count.dtype == jnp.int32)
