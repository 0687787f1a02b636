"""Shared helpers of the specifications."""
import os
import jax
import jax.numpy as jnp
import numpy as np
import optax
from vp.contract import tmap, leaves, struct, Leaf, TREES, cross, contract, Reject

THOROUGH = os.environ.get('VP_TIER') == 'thorough'
FAMILY = ['nest', 'scalar', 'empty', 'ranks'] + (['wide', 'pair', 'vec'] if THOROUGH else [])
SMALL = ['nest'] + (['ranks', 'scalar', 'vec', 'empty'] if THOROUGH else [])
I32MAX = 2**31 - 1


def inc(n):
  """The saturating successor."""
  return jnp.where(n < I32MAX, jnp.minimum(n, I32MAX - 1) + 1, I32MAX).astype(jnp.int32)


def zero32(): return jnp.zeros([], jnp.int32)


def snapshot(*xs):
  """Identity of every node of containers (to see whether an argument was modified)."""
  def go(x):
    if isinstance(x, dict): return ('d', id(x), [(k, go(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)): return (type(x).__name__, id(x), [go(v) for v in x])
    if isinstance(x, np.ndarray): return ('np', id(x), x.tobytes())
    return ('l', id(x))
  return [go(x) for x in xs]


def rates(c, *names):
  """Decay rates in [0, 1)."""
  r = [c.real(n, 0, 1, hi_open=True) for n in names]
  return r if len(r) > 1 else r[0]


def ema_(d, m, g): return tmap(lambda m, g: d * m + (1 - d) * g, m, g)


def fixed(value):
  """A schedule: an arbitrary function of the count (see Ctx.opaque_fn)."""
  return lambda count: value


def sched(c, name, lo=None):
  """An arbitrary schedule: uninterpreted function of the step count."""
  like = jax.ShapeDtypeStruct((), jnp.float32 if c.symbolic else jnp.float64)

  def f(count):
    x = c.opaque_fn(name, [jnp.asarray(count, jnp.int32)], like)
    return x if lo is None else jnp.abs(x) + lo
  return f


# ---------------------------------------------------------------- every public transformation
def _eps(c, n='eps'): return c.real(n, 0, lo_open=True)


def _root(c): return dict(b1=rates(c, 'b1'), b2=rates(c, 'b2'), eps=_eps(c), eps_root=c.real('root', 0))


def _be(c): return dict(b1=rates(c, 'b1'), b2=rates(c, 'b2'), eps=_eps(c))


def _mom(c, kind): return {} if kind is None else dict(momentum=c.real('mom', 0, 1, hi_open=True), nesterov=kind == 'nesterov')


class Tx:
  """One public transformation with symbolic hyperparameters.

  make(c): the transformation. batch: gradients have a leading batch axis. pair: the parameters
  are a fast/slow pair. target: the function under contract. kind: 'leaf' if documented to act
  leaf by leaf, 'element' if elementwise, 'global' otherwise."""
  def __init__(self, make, target, kind='element', batch=False, pair=False, safe=True, counts=(), no_decay=False):
    self.make = make; self.target = target; self.kind = kind; self.batch = batch; self.pair = pair; self.safe = safe


_T, _W, _A = 'optax/_src/transform.py:', 'optax/_src/wrappers.py:', 'optax/_src/alias.py:'
_C, _K, _S = 'optax/_src/clipping.py:', 'optax/_src/constrain.py:', 'optax/_src/schedule.py:'
ZOO = {}


def _z(name, target, make, **kw): ZOO[name] = Tx(make, target, **kw)


_z('identity', 'optax/_src/base.py:identity', lambda c: optax.identity())
_z('clip', _C + 'clip', lambda c: optax.clip(c.real('clip', 0)))
_z('clip_by_global_norm', _C + 'clip_by_global_norm', lambda c: optax.clip_by_global_norm(c.real('clip', 0, lo_open=True)), kind='global')
_z('adaptive_grad_clip', _C + 'adaptive_grad_clip', lambda c: optax.adaptive_grad_clip(c.real('clip', 0, lo_open=True), eps=_eps(c)), kind='leaf')
_z('keep_params_nonnegative', _K + 'keep_params_nonnegative', lambda c: optax.keep_params_nonnegative())
_z('zero_nans', _K + 'zero_nans', lambda c: optax.zero_nans())
_z('add_decayed_weights', _T + 'add_decayed_weights', lambda c: optax.add_decayed_weights(c.real('wd')))
_z('scale', _T + 'scale', lambda c: optax.scale(c.real('k')))
_z('scale_by_schedule', _T + 'scale_by_schedule', lambda c: optax.scale_by_schedule(sched(c, 'lr')))
for _n in (False, True):
  _z('trace' + ('.nesterov' if _n else ''), _T + 'trace', lambda c, n=_n: optax.trace(c.real('d', 0, 1, hi_open=True), n))
for _n in (False, True):
  _z('ema' + ('' if _n else '.raw'), _T + 'ema', lambda c, n=_n: optax.ema(rates(c, 'd'), n))
_z('trace.acc32', _T + 'trace', lambda c: optax.trace(c.real('d', 0, 1, hi_open=True), True, accumulator_dtype=jnp.float32))
_z('trace.acc16', _T + 'trace', lambda c: optax.trace(c.real('d', 0, 1, hi_open=True), accumulator_dtype=jnp.bfloat16))
_z('ema.acc32', _T + 'ema', lambda c: optax.ema(rates(c, 'd'), accumulator_dtype=jnp.float32))
_z('ema.acc16', _T + 'ema', lambda c: optax.ema(rates(c, 'd'), False, accumulator_dtype=jnp.bfloat16))
_z('scale_by_rss', _T + 'scale_by_rss', lambda c: optax.scale_by_rss(c.real('a', 0), _eps(c)))
_z('scale_by_rms', _T + 'scale_by_rms', lambda c: optax.scale_by_rms(rates(c, 'd'), _eps(c), c.real('a', 0)))
_z('scale_by_stddev', _T + 'scale_by_stddev', lambda c: optax.scale_by_stddev(rates(c, 'd'), _eps(c), c.real('a', 0)))
_z('scale_by_adam', _T + 'scale_by_adam', lambda c: optax.scale_by_adam(**_root(c)))
_z('scale_by_belief', _T + 'scale_by_belief', lambda c: optax.scale_by_belief(**_root(c)))
_z('scale_by_yogi', _T + 'scale_by_yogi', lambda c: optax.scale_by_yogi(**_root(c), initial_accumulator_value=c.real('a', 0)))
_z('scale_by_radam', _T + 'scale_by_radam', lambda c: optax.scale_by_radam(**_root(c), threshold=c.real('thr', 4, lo_open=True)))
_z('scale_by_sm3', _T + 'scale_by_sm3', lambda c: optax.scale_by_sm3(rates(c, 'b1'), rates(c, 'b2'), _eps(c)), kind='leaf')
_z('scale_by_sm3.b2=1', _T + 'scale_by_sm3', lambda c: optax.scale_by_sm3(rates(c, 'b1'), 1.0, _eps(c)), kind='leaf')
_z('scale_by_trust_ratio', _T + 'scale_by_trust_ratio', lambda c: optax.scale_by_trust_ratio(c.real('mn', 0)), kind='leaf')
_z('apply_every', _T + 'apply_every', lambda c: optax.apply_every(c.int('k', 1, I32MAX)))
_z('centralize', _T + 'centralize', lambda c: optax.centralize(), kind='leaf')
_z('add_noise', _T + 'add_noise', lambda c: optax.add_noise(c.real('eta', 0), c.real('gam', 0), 3), kind='global')
_z('differentially_private_aggregate', 'optax/_src/privacy.py:differentially_private_aggregate',
   lambda c: optax.differentially_private_aggregate(c.real('clip', 0, lo_open=True), c.real('nm', 0), 3), kind='global', batch=True)

# wrappers around Adam (moments, a counter)
_z('flatten', _W + 'flatten', lambda c: optax.flatten(optax.scale_by_adam(**_root(c))))
_z('apply_if_finite', _W + 'apply_if_finite', lambda c: optax.apply_if_finite(optax.scale_by_adam(**_root(c)), 5), kind='global')
_z('masked', _W + 'masked', lambda c: optax.masked(optax.scale_by_adam(**_root(c)), lambda t: tmap(lambda x: x.ndim != 1, t)))
_z('maybe_update', _W + 'maybe_update', lambda c: optax.maybe_update(optax.scale_by_adam(**_root(c)), lambda n: n % 3 == 0))
_z('MultiSteps', _W + 'MultiSteps', lambda c: optax.MultiSteps(optax.scale_by_adam(**_root(c)), 3).gradient_transformation())
_z('MultiSteps.sum', _W + 'MultiSteps', lambda c: optax.MultiSteps(optax.scale_by_adam(**_root(c)), lambda n: n + 2, use_grad_mean=False).gradient_transformation())
_z('chain', 'optax/_src/combine.py:chain', lambda c: optax.chain(optax.clip(c.real('clip', 0)), optax.trace(c.real('d', 0, 1, hi_open=True)), optax.scale_by_schedule(sched(c, 'lr'))))
_z('inject_hyperparams', _S + 'inject_hyperparams', lambda c: optax.inject_hyperparams(optax.adam)(learning_rate=sched(c, 'lr'), b1=0.5, eps=0.25, b2=0.75))
_z('lookahead', 'optax/_src/lookahead.py:lookahead', lambda c: optax.lookahead(optax.scale_by_adam(**_root(c)), 3, c.real('al')), pair=True)
_z('lookahead.reset', 'optax/_src/lookahead.py:lookahead', lambda c: optax.lookahead(optax.scale_by_adam(**_root(c)), 3, c.real('al'), reset_state=True), pair=True)

for _l in ('const', 'sched'):
  _lr = (lambda c: c.real('lr')) if _l == 'const' else (lambda c: sched(c, 'lr'))
  _s = '' if _l == 'const' else '.sched'
  _z('adam' + _s, _A + 'adam', lambda c, r=_lr: optax.adam(r(c), **_root(c)))
  _z('adamw' + _s, _A + 'adamw', lambda c, r=_lr: optax.adamw(r(c), **_root(c), weight_decay=c.real('wd')))
  _z('lamb' + _s, _A + 'lamb', lambda c, r=_lr: optax.lamb(r(c), **_root(c), weight_decay=c.real('wd')), kind='leaf')
  _z('radam' + _s, _A + 'radam', lambda c, r=_lr: optax.radam(r(c), **_root(c), threshold=c.real('thr', 4, lo_open=True)))
  _z('adabelief' + _s, _A + 'adabelief', lambda c, r=_lr: optax.adabelief(r(c), **_be(c)))
  _z('yogi' + _s, _A + 'yogi', lambda c, r=_lr: optax.yogi(r(c), **_be(c)))
  _z('adagrad' + _s, _A + 'adagrad', lambda c, r=_lr: optax.adagrad(r(c), c.real('a', 0), _eps(c)))
  for _m in (None, 'heavy', 'nesterov'):
    _z('sgd' + _s + ('.' + _m if _m else ''), _A + 'sgd', lambda c, r=_lr, m=_m: optax.sgd(r(c), **_mom(c, m)))
  for _m in (None, 'nesterov'):
    for _c in (False, True):
      _z('rmsprop' + _s + ('.' + _m if _m else '') + ('.centered' if _c else ''), _A + 'rmsprop',
         lambda c, r=_lr, m=_m, ce=_c: optax.rmsprop(r(c), decay=rates(c, 'd'), eps=_eps(c), initial_scale=c.real('a', 0), centered=ce, **_mom(c, m)))
  _z('noisy_sgd' + _s, _A + 'noisy_sgd', lambda c, r=_lr: optax.noisy_sgd(r(c), c.real('eta', 0), c.real('gam', 0), 3), kind='global')
  _z('dpsgd' + _s, _A + 'dpsgd', lambda c, r=_lr: optax.dpsgd(r(c), c.real('clip', 0, lo_open=True), c.real('nm', 0), 3, **_mom(c, 'heavy')), kind='global', batch=True)
_z('fromage', _A + 'fromage', lambda c: optax.fromage(c.real('lr'), _eps(c)), kind='leaf')
_z('sm3', _A + 'sm3', lambda c: optax.sm3(c.real('lr'), rates(c, 'mom')), kind='leaf')


def zoo_args(c, z, g='g', p='p', dtype=None, like=None, **kw):
  """(gradients, parameters, expected type of the updates) for a ZOO entry."""
  like = c.T if like is None else like
  par = c.tree(p, like=like, dtype=dtype, **kw)
  if z.batch:
    flat, td = jax.tree_util.tree_flatten(like, is_leaf=lambda x: isinstance(x, Leaf))
    like = jax.tree_util.tree_unflatten(td, [Leaf('B', *l.shape, dtype=l.dtype) for l in flat])
  gr = c.tree(g, like=like, dtype=dtype, **kw)
  if z.pair: return gr, optax.LookaheadParams(fast=par, slow=c.tree(p + 's', like=par, **kw)), optax.LookaheadParams(fast=par, slow=par)
  return gr, par, par


def any_state(c, s0, tag='', shared=False):
  """A state laid out like s0 with arbitrary contents (accumulators of squares nonnegative)."""
  n = [0]

  def leaf(f, sm3):
    def go(x):
      n[0] += 1
      nm = '%s%s.%d' % (tag, f, n[0])
      d = jnp.result_type(x)
      if d == jnp.bool_: return c.bool(nm)
      if d == jnp.int32:
        if shared: nm = tag + 'n'
        return c.count(nm, hi=I32MAX - 1)
      if d == jnp.uint32: return c.key(nm)
      return c.array(nm, x.shape, x.dtype, nonneg=f in ('sum_of_squares', 'mu' if sm3 else 'nu'))
    return go

  def walk(s, f=''):
    if isinstance(s, tuple) and hasattr(s, '_fields'):
      sm3 = 'SM3' in type(s).__name__
      return type(s)(*[tmap(leaf(k, sm3), getattr(s, k)) if not _has_nt(getattr(s, k)) else walk(getattr(s, k), k) for k in s._fields])
    if isinstance(s, (list, tuple)): return type(s)(walk(x, f) for x in s)
    if isinstance(s, dict): return {k: walk(x, k) for k, x in s.items()}
    return tmap(leaf(f, False), s)
  return walk(s0)


def _has_nt(s):
  if isinstance(s, tuple) and hasattr(s, '_fields'): return True
  if isinstance(s, (list, tuple)): return any(_has_nt(x) for x in s)
  if isinstance(s, dict): return any(_has_nt(x) for x in s.values())
  return False


class Memo:
  """The same hyperparameters for a second construction."""
  def __init__(self, c): self.c = c; self.memo = {}

  def __getattr__(self, k):
    a = getattr(self.c, k)
    if k not in ('real', 'int', 'array', 'bool', 'key'): return a

    def f(name, *x, **y):
      if (k, name) not in self.memo: self.memo[k, name] = a(name, *x, **y)
      return self.memo[k, name]
    return f
