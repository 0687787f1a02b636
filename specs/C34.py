"""inject_hyperparams."""
from lib import *

T = ['optax/_src/schedule.py:inject_hyperparams', 'optax/_src/schedule.py:_convert_floats']
SCHEDS = [(), ('a',), ('b', 'k')] + ([('a', 'b'), ('k',), ('a', 'b', 'k'), ('b',)] if THOROUGH else [])


def factory(c, seen):
  """An arbitrary inner factory: its transformation is an arbitrary function of the hyperparameters too."""
  def make(a, b=0.25, k=3, flag=True, mode='m', fn=None, *, other=None):
    seen.append((flag, mode, fn, other))
    hp = [jnp.asarray(a), jnp.asarray(b), jnp.asarray(k)]

    def init(params):
      return c.opaque_tx('in').init([hp, params])

    def update(u, s, params=None):
      args = [hp, u, s] + ([params] if params is not None else [])
      t = '' if params is not None else 'np'
      return c.uf('in.u' + t, args, u), c.uf('in.s' + t, args, s)
    return optax.GradientTransformation(init, update)
  return make


@contract('inject', T, cross(tree=['nest'], dt=['float32'], sched=SCHEDS, par=[True, False], edit=[False, True]) +
          cross(tree=['nest'], dt=['bfloat16'], sched=[('a',)], par=[True], edit=[False, True]) +
          cross(tree=['empty', 'mixed', 'scalar'], dt=[None], sched=[('a',), ()], par=[True], edit=[True]))
def inject(c):
  """Hyperparameters a, b (floats) and k (an integer): arbitrary values or schedules."""
  seen = []
  make = factory(c, seen)
  fl = jnp.float32 if c.symbolic else jnp.float64

  def schedule(name):
    if name == 'k': return lambda n: c.opaque_fn('f_k', [n], jax.ShapeDtypeStruct((), jnp.int32))
    return lambda n: c.opaque_fn('f_' + name, [n], jax.ShapeDtypeStruct((), fl))
  a, b, k = c.real('a'), c.real('b'), c.int('k', -9, 9)
  static_fn = lambda n: 1.0
  args = dict(a=a, b=b, k=k)
  for n in c.v['sched']: args[n] = schedule(n)
  other = object()
  tx = optax.inject_hyperparams(make, static_args=('fn',))(args['a'], k=args['k'], b=args['b'], flag=False, fn=static_fn, other=other)
  p, g = c.tree('p', dtype=c.v['dt']), c.tree('g', dtype=c.v['dt'])
  L = leaves(g)
  dt = L[0].dtype if L else None
  conv = lambda x: jnp.asarray(x, dt) if jnp.issubdtype(jnp.result_type(x), jnp.floating) else jnp.asarray(x)

  def hps(base, n):
    h = dict(base)
    for s in c.v['sched']: h[s] = schedule(s)(n)
    return {x: conv(y) for x, y in h.items()}
  s0 = tx.init(p)
  h0 = hps({'a': a, 'b': b, 'k': k}, jnp.zeros([], jnp.int32))
  c.eq('init hyperparams', s0.hyperparams, h0)
  c.eq('init count', s0.count, zero32())
  c.eq('init inner', s0.inner_state, make(**h0).init(p))
  st = c.tree('st', s0.inner_state)
  cur = dict(s0.hyperparams)
  if c.v['edit']:
    ea, eb, ek = c.real('ea'), c.real('eb'), c.int('ek', -9, 9)
    cur = {'a': ea, 'b': jnp.asarray(eb), 'k': jnp.asarray(ek, jnp.int32)}
  n = c.count('n')
  s = s0._replace(count=n, hyperparams=cur, inner_state=st)
  before = dict(cur)
  par = (p,) if c.v['par'] else ()
  u, s1 = tx.update(g, s, *par)
  h1 = hps(before, inc(n))
  wu, ws = make(**h1).update(g, st, *par)
  c.eq('updates', u, wu); c.eq('inner state', s1.inner_state, ws)
  c.eq('hyperparams', {x: jnp.asarray(y) for x, y in s1.hyperparams.items()}, h1)
  c.eq('count', s1.count, inc(n))
  c.check('state untouched', all(s.hyperparams[x] is before[x] for x in before) and set(s.hyperparams) == set(before))
  calls = [x for x in seen if x[2] is not None]
  c.check('passed through', len(calls) >= 2 and all(x == (False, 'm', static_fn, other) for x in calls), str(calls))


@contract('inject.static', T, [{}])
def static(c):
  """Static arguments, booleans and other values are handed to the factory as they are."""
  seen = []
  make = factory(c, seen)
  g = c.tree('g', TREES['nest'])
  f = lambda n: n
  for kw in (dict(static_args='fn'), dict(static_args=['fn', 'mode']), dict(static_args={'fn'})):
    del seen[:]
    tx = optax.inject_hyperparams(make, **kw)(a=1.0, flag=True, fn=f, mode='x')
    s = tx.init(g)
    c.check('hyperparams', set(s.hyperparams) == {'a', 'b', 'k'}, str(set(s.hyperparams)))
    tx.update(g, s, g)
    c.check('as given', len(seen) >= 2 and all(x == (True, 'x', f, None) for x in seen), str(seen))
  # a number that is declared static is not a hyperparameter either
  tx = optax.inject_hyperparams(make, static_args=('b', 'fn'))(a=1.0, b=0.5, fn=f)
  s = tx.init(g)
  c.check('static number', set(s.hyperparams) == {'a', 'k'}, str(set(s.hyperparams)))
  # without static_args callables are schedules
  tx = optax.inject_hyperparams(make)(a=lambda n: 0.5 + n)
  s = tx.init(g)
  c.check('default hyperparams', set(s.hyperparams) == {'a', 'b', 'k'}, str(set(s.hyperparams)))
  for bad in ('nope', ['fn', 'nope'], {'x'}):
    c.raises('unknown static argument', ValueError, lambda: optax.inject_hyperparams(make, static_args=bad))


@contract('inject.named', T, cross(tree=['nest'], which=['adam', 'scale', 'sgd', 'decay']))
def named(c):
  """The wrapper around real factories."""
  g, p = c.tree('g'), c.tree('p')
  w = c.v['which']
  n = c.count('n', 0, I32MAX - 1)
  v = c.real('v', 0, 1, hi_open=True)
  f = sched(c, 'f', 0.5)
  if w == 'adam':
    ex = c.real('eps', 0, lo_open=True)
    tx = optax.inject_hyperparams(optax.scale_by_adam)(b1=v, eps=ex)
    ref = lambda h: optax.scale_by_adam(b1=h['b1'], b2=0.999, eps=ex)
    names = {'b1', 'b2', 'eps', 'eps_root'}
  elif w == 'scale':
    tx = optax.inject_hyperparams(optax.scale)(f); ref = lambda h: optax.scale(f(inc(n))); names = {'step_size'}
  elif w == 'sgd':
    tx = optax.inject_hyperparams(optax.sgd)(learning_rate=f, momentum=v); names = {'learning_rate', 'momentum'}
    ref = lambda h: optax.sgd(f(inc(n)), v)
  else:
    tx = optax.inject_hyperparams(optax.add_decayed_weights)(weight_decay=v); ref = lambda h: optax.add_decayed_weights(v); names = {'weight_decay'}
  s = tx.init(p)
  c.check('names', set(s.hyperparams) == names, str(set(s.hyperparams)))
  st = c.tree('st', s.inner_state, nonneg=True)
  u, s1 = tx.update(g, s._replace(count=n, inner_state=st), p)
  h = s.hyperparams
  wu, ws = ref(h).update(g, st, p)
  if not c.symbolic: h = None
  c.eq('updates', u, wu); c.eq('state', s1.inner_state, ws)
