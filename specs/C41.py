"""Control variates: the function, the control variate and the estimator are arbitrary."""
from lib import *
from optax._src import control_variates as cv

S = 'optax/_src/control_variates.py:'


@contract('control_delta_method', [S + 'control_delta_method'])
def delta(c):
  F = c.smooth('F')
  mu, ls, x = c.array('mu', ('d',)), c.array('ls', ('d',)), c.array('x', ('d',))
  if not c.symbolic: ls = jnp.clip(ls, -3, 3)
  f, ev, up = optax.control_delta_method(F)
  st = c.real('state')
  g, H, z = F.d((0,), mu), F.d((0, 0), mu), x - mu
  c.eq('second order expansion at the mean', f((mu, ls), x, st), F(mu) + jnp.sum(z * g) + 0.5 * jnp.sum(z[:, None] * H * z[None, :]))
  i = jnp.arange(mu.shape[0])
  diag = jax.vmap(lambda i: H[i, i])(i)
  c.eq('expected value', ev((mu, ls), st), F(mu) + 0.5 * jnp.sum(jnp.exp(ls) ** 2 * diag))
  c.eq('state', up((mu, ls), x[None], st), st)
  c.eq('no state', f((mu, ls), x), f((mu, ls), x, st))
  c.check('no state kept', up((mu, ls), x[None]) is None, '')


def baseline(c, **kw):
  F = c.smooth('F')
  v, n, xs = c.real('v'), c.count('i', hi=2 ** 30), c.array('xs', ('n', 'd'))
  p = (c.array('mu', ('d',)), c.array('ls', ('d',)))
  tx = optax.moving_avg_baseline(F, **kw)
  return F, tx, p, v, n, xs, jnp.mean(jax.vmap(F)(xs))


def decay_of(c, d, i, heuristic):
  return jnp.minimum(d, (1.0 + i) / (10.0 + i)) if heuristic else d


@contract('moving_avg_baseline', [S + 'moving_avg_baseline'], cross(heuristic=[True, False, 'default'], decay=['any', 'default']))
def moving(c):
  kw = {} if c.v['heuristic'] == 'default' else dict(use_decay_early_training_heuristic=c.v['heuristic'])
  d = 0.99
  if c.v['decay'] == 'any': d = kw['decay'] = c.real('decay', 0, 1)
  F, (f, ev, up), p, v, i, xs, m = baseline(c, zero_debias=False, **kw)
  c.eq('value', f(p, xs, (v, i)), v); c.eq('expected value', ev(p, (v, i)), v)
  v1, i1 = up(p, xs, (v, i))
  dd = decay_of(c, d, i, c.v['heuristic'])
  c.eq('moving average', v1, dd * v + (1 - dd) * m); c.eq('count', i1, i + 1)


@contract('moving_avg_baseline zero debias', [S + 'moving_avg_baseline'], cross(heuristic=[True, False], given=[True, False]))
def debias(c):
  kw = dict(zero_debias=True) if c.v['given'] else {}
  d = c.real('decay', 0, 1, hi_open=True)
  F, (f, ev, up), p, v, i, xs, m = baseline(c, decay=d, use_decay_early_training_heuristic=c.v['heuristic'], **kw)
  c.eq('value', f(p, xs, (v, i)), v); c.eq('expected value', ev(p, (v, i)), v)
  v0, i0 = up(p, xs, (0., jnp.zeros([], jnp.int32)))
  c.eq('the first average is the mean', v0, m); c.eq('count of the first', i0, 1, dtype=False)
  v1, i1 = up(p, xs, (v, i))
  c.eq('count', i1, i + 1)
  # a multiple of the average that does not depend on the samples or the value
  w = c.real('w'); dd = decay_of(c, d, i, c.v['heuristic'])
  w1, _ = up(p, xs, (w, i))
  c.eq('in proportion to the moving average', v1 * (dd * w + (1 - dd) * m), w1 * (dd * v + (1 - dd) * m))


@contract('moving_avg_baseline constant', [S + 'moving_avg_baseline'], cross(heuristic=[True, False], first=[True, False]))
def constant(c):
  """The average of a constant function is the constant."""
  d, k = c.real('decay', 0, 1, lo_open=True, hi_open=True), c.real('k', nonzero=True)
  _, _, up = optax.moving_avg_baseline(lambda x: k + 0 * jnp.sum(x), decay=d, zero_debias=True, use_decay_early_training_heuristic=c.v['heuristic'])
  xs = c.array('xs', ('n', 'd'))
  i = c.count('i', hi=2 ** 30)
  v1, _ = up(None, xs, (0., jnp.zeros([], jnp.int32)) if c.v['first'] else (k, i + 1))
  c.eq('first' if c.v['first'] else 'later', v1, k)


class Dist:
  def __init__(self, c, like, params): self.c, self.like, self.params = c, like, params
  def sample(self, shape, seed=None):
    return self.c.uf('sample', [self.params, seed], jnp.zeros(tuple(shape) + tuple(self.like.shape)))


def setting(c):
  """An arbitrary estimator of an arbitrary function under an arbitrary distribution."""
  P = (c.array('mu', ('d',)), c.array('ls', ('d',)))
  n = c.dim('n')
  F, H, E = c.smooth('F'), c.smooth('H'), c.smooth('E')
  st = c.real('state')
  made = []

  def from_function(f):
    made.append(f is F)
    return H, E, lambda params, x, s: c.uf('update', [params, x, s], jnp.zeros(()))

  def build(*params): return Dist(c, P[0], params)

  def est(f, params, builder, rng, num):
    made.append(builder is build)
    # the estimate depends on the function at points of the estimator's choice
    pts = c.uf('points', [params, rng], jnp.zeros((num,) + tuple(P[0].shape)))
    vals = jax.vmap(f)(pts)
    return tuple(c.uf('jac%d' % k, [vals, params, rng], jnp.zeros((num,) + tuple(P[0].shape))) for k in range(len(params)))
  return P, n, F, H, E, st, from_function, build, est, made


@contract('control_variates_jacobians', [S + 'control_variates_jacobians', S + '_map'], cross(coeffs=[False, True, 'default']))
def jacobians(c):
  P, n, F, H, E, st, ff, build, est, made = setting(c)
  key = c.key('key')
  kw = {} if c.v['coeffs'] == 'default' else dict(estimate_cv_coeffs=c.v['coeffs'])
  m = 20
  if c.v['coeffs'] is True: m = kw['estimate_cv_coeffs_num_samples'] = c.dim('m')
  jac, st1 = optax.control_variates_jacobians(F, ff, est, P, build, key, n, st, **kw)
  c.check('built from the function', all(made), '')
  samples = build(*P).sample((n,), seed=key)
  c.eq('the state is updated once', st1, c.uf('update', [P, samples, st], jnp.zeros(())))
  fj = est(F, P, build, key, n)
  hj = est(lambda x: H(P, x, st1), P, build, key, n)
  co = [1.0, 1.0]
  if c.v['coeffs'] is True: co = cv.estimate_control_variate_coefficients(F, ff, est, P, build, key, m, st)
  c.check('one jacobian for each parameter', len(jac) == 2, '')
  for k in range(2):
    g = jnp.mean(jax.vmap(lambda x: H.d((k,), P, x, st1))(samples), axis=0)
    e = E.d((k,), P, st1)
    c.eq('jacobian[%d]' % k, jac[k], fj[k] - co[k] * (hj[k] + g - e))


@contract('estimate_control_variate_coefficients', [S + 'estimate_control_variate_coefficients'], cross(eps=['any', 'default']))
def coefficients(c):
  P, n, F, H, E, st, ff, build, est, made = setting(c)
  key = c.key('key')
  kw = {}; eps = 1e-3
  if c.v['eps'] == 'any': eps = kw['eps'] = c.real('eps', 0, lo_open=True)
  co = cv.estimate_control_variate_coefficients(F, ff, est, P, build, key, n, st, **kw)
  k1 = jax.random.split(key)[0]
  fj, hj = est(F, P, build, k1, n), est(lambda x: H(P, x, st), P, build, k1, n)
  c.check('one coefficient for each parameter', len(co) == 2, '')
  for k in range(2):
    f, h = fj[k] - jnp.mean(fj[k], axis=0), hj[k] - jnp.mean(hj[k], axis=0)
    cov, var = jnp.sum(jnp.mean(f * h, axis=0)), jnp.sum(jnp.mean(h * h, axis=0))
    c.eq('coefficient[%d]' % k, co[k], cov / (var + eps))


@contract('coefficient 0', [S + 'control_variates_jacobians'])
def zero(c):
  """A control variate whose jacobians do not vary gets the coefficient 0: the estimate is unchanged."""
  P, n, F, H, E, st, ff, build, est, made = setting(c)
  key = c.key('key')
  est0 = lambda f, *a: est(f, *a) if f is F else tuple(jnp.zeros_like(x) + k for k, x in enumerate(est(F, *a)))
  jac, _ = optax.control_variates_jacobians(F, ff, est0, P, build, key, n, st, estimate_cv_coeffs=True, estimate_cv_coeffs_num_samples=c.dim('m'))
  fj = est(F, P, build, key, n)
  for k in range(2): c.eq('unchanged[%d]' % k, jac[k], fj[k])
