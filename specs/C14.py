"""Named optimizers against the documented rule, written out as formulas.

Per optimizer: init establishes the documented initial fields; from any state with those
fields (all counters equal to the number n of completed updates) one update yields the
documented output and fields. By induction this covers every history."""
from lib import *
from optax._src import alias

A = 'optax/_src/alias.py:'
EL = 'optax/_src/transform.py:'


def fields(state, c=None, g=None, out=None):
  """Named fields of an optimizer state, wherever the chain puts them."""
  out = {} if out is None else out
  if isinstance(state, tuple) and hasattr(state, '_fields'):
    for f in state._fields:
      v = getattr(state, f)
      if isinstance(v, tuple) and hasattr(v, '_fields'): fields(v, c, g, out)
      else: out.setdefault(f, []).append(v)
  elif isinstance(state, (list, tuple)):
    for v in state: fields(v, c, g, out)
  return out


def arbitrary(c, state, nonneg=()):
  """A state of the same layout with arbitrary contents; one shared counter, one value per field name."""
  memo = {}

  def go(s):
    if isinstance(s, tuple) and hasattr(s, '_fields'):
      vals = []
      for f in s._fields:
        v = getattr(s, f)
        if isinstance(v, tuple) and hasattr(v, '_fields'): vals.append(go(v)); continue
        if f not in memo:
          if f == 'count': memo[f] = c.count('n', hi=I32MAX - 1)
          elif f == 'rng_key': memo[f] = c.key('key')
          else: memo[f] = c.tree(f, like=v, nonneg=f in nonneg)
        vals.append(memo[f])
      return type(s)(*vals)
    if isinstance(s, list): return [go(x) for x in s]
    if isinstance(s, tuple): return tuple(go(x) for x in s)
    raise TypeError(type(s))
  return go(state), memo


class Rule:
  """Documented rule: names of its fields, their initial values, the step."""
  def __init__(self, make, start, step, nonneg=('nu', 'sum_of_squares'), lr0=False): 
    self.make = make; self.start = start; self.step = step; self.nonneg = nonneg; self.lr0 = lr0


def zeros(p): return tmap(jnp.zeros_like, p)
def full(p, a): return tmap(lambda x: jnp.full_like(x, a), p)
def sq(t): return tmap(lambda x: x * x, t)


def adam_dir(h, g, S, n):
  m, v = ema_(h['b1'], S['mu'], g), ema_(h['b2'], S['nu'], sq(g))
  t = n + 1
  u = tmap(lambda m, v: (m / (1 - h['b1'] ** t)) / (jnp.sqrt(v / (1 - h['b2'] ** t) + h.get('root', 0.0)) + h['eps']), m, v)
  return u, dict(mu=m, nu=v)


def belief_dir(h, g, S, n):
  m = ema_(h['b1'], S['mu'], g)
  v = tmap(lambda g, m, v: h['b2'] * v + (1 - h['b2']) * (g - m) ** 2, g, S['mu'], S['nu'])
  t = n + 1
  return tmap(lambda m, v: (m / (1 - h['b1'] ** t)) / (jnp.sqrt(v / (1 - h['b2'] ** t) + 1e-16) + h['eps']), m, v), dict(mu=m, nu=v)


def radam_dir(h, g, S, n):
  m, v = ema_(h['b1'], S['mu'], g), ema_(h['b2'], S['nu'], sq(g))
  t = n + 1; b2 = h['b2']
  rinf = 2 / (1 - b2) - 1
  ro = rinf - 2 * b2 ** t * t / (1 - b2 ** t)
  r = jnp.sqrt((ro - 4) * (ro - 2) * rinf / ((rinf - 4) * (rinf - 2) * ro))

  def f(m, v):
    mh, vh = m / (1 - h['b1'] ** t), v / (1 - b2 ** t)
    return jnp.where(ro >= h['thr'], r * mh / (jnp.sqrt(vh + h['root']) + h['eps']), mh)
  return tmap(f, m, v), dict(mu=m, nu=v)


def momentum(h, u, S, c):
  """Optional heavy-ball/Nesterov trace."""
  if c.v.get('mom') is None: return u, {}
  d = h['mom']
  t = tmap(lambda u, t: u + d * t, u, S['trace'])
  return (tmap(lambda u, t: u + d * t, u, t) if c.v['mom'] == 'nesterov' else t), dict(trace=t)


def trust(u, p, mn=0.0):
  def f(u, p):
    a, b = jnp.maximum(jnp.sqrt(jnp.sum(p * p)), mn), jnp.maximum(jnp.sqrt(jnp.sum(u * u)), mn)
    return jnp.where((a == 0) | (b == 0), u, u * (a / jnp.where(b == 0, 1.0, b)))
  return tmap(f, u, p)


def mk(c, h):
  if c.v.get('mom') is None: return {}
  return dict(momentum=h['mom'], nesterov=c.v['mom'] == 'nesterov')


def mom0(c, p): return dict(trace=zeros(p)) if c.v.get('mom') else {}


BE = lambda c: dict(b1=c.real('b1', 0, 1, hi_open=True), b2=c.real('b2', 0, 1, hi_open=True), eps=c.real('eps', 0, lo_open=True))
ROOT = lambda c: dict(BE(c), root=c.real('root', 0))
mv = lambda c, h, p: dict(mu=zeros(p), nu=zeros(p))
neg = lambda lr, u: tmap(lambda u: -lr * u, u)

# name -> (hyperparameters, constructor, initial fields, step(c, h, lr, g, p, S, n) -> (update, fields))
R = {}
R['adam'] = (ROOT, lambda c, lr, h: optax.adam(lr, b1=h['b1'], b2=h['b2'], eps=h['eps'], eps_root=h['root']), mv,
             lambda c, h, lr, g, p, S, n: (lambda u, s: (neg(lr, u), s))(*adam_dir(h, g, S, n)))
R['adabelief'] = (BE, lambda c, lr, h: optax.adabelief(lr, b1=h['b1'], b2=h['b2'], eps=h['eps']), mv,
                  lambda c, h, lr, g, p, S, n: (lambda u, s: (neg(lr, u), s))(*belief_dir(h, g, S, n)))
R['adamw'] = (lambda c: dict(ROOT(c), wd=c.real('wd')), lambda c, lr, h: optax.adamw(lr, b1=h['b1'], b2=h['b2'], eps=h['eps'], eps_root=h['root'], weight_decay=h['wd']), mv,
              lambda c, h, lr, g, p, S, n: (lambda u, s: (neg(lr, tmap(lambda u, p: u + h['wd'] * p, u, p)), s))(*adam_dir(h, g, S, n)))
R['lamb'] = (lambda c: dict(ROOT(c), wd=c.real('wd')), lambda c, lr, h: optax.lamb(lr, b1=h['b1'], b2=h['b2'], eps=h['eps'], eps_root=h['root'], weight_decay=h['wd']), mv,
             lambda c, h, lr, g, p, S, n: (lambda u, s: (neg(lr, trust(tmap(lambda u, p: u + h['wd'] * p, u, p), p)), s))(*adam_dir(h, g, S, n)))
R['radam'] = (lambda c: dict(ROOT(c), thr=c.real('thr', 4, lo_open=True)), lambda c, lr, h: optax.radam(lr, b1=h['b1'], b2=h['b2'], eps=h['eps'], eps_root=h['root'], threshold=h['thr']), mv,
              lambda c, h, lr, g, p, S, n: (lambda u, s: (neg(lr, u), s))(*radam_dir(h, g, S, n)))
R['adagrad'] = (lambda c: dict(a=c.real('a', 0), eps=c.real('eps', 0)), lambda c, lr, h: optax.adagrad(lr, initial_accumulator_value=h['a'], eps=h['eps']),
                lambda c, h, p: dict(sum_of_squares=full(p, h['a'])),
                lambda c, h, lr, g, p, S, n: (lambda s: (neg(lr, tmap(lambda g, s: jnp.where(s > 0, g / jnp.sqrt(jnp.where(s > 0, s + h['eps'], 1.0)), 0.0), g, s)), dict(sum_of_squares=s)))(tmap(lambda g, s: s + g * g, g, S['sum_of_squares'])))


def sgd_step(c, h, lr, g, p, S, n):
  u, s = momentum(h, g, S, c)
  return neg(lr, u), s


def rms_step(c, h, lr, g, p, S, n):
  nu = ema_(h['d'], S['nu'], sq(g)); s = dict(nu=nu)
  if c.v['centered']:
    mu = ema_(h['d'], S['mu'], g); s['mu'] = mu
    u = tmap(lambda g, n, m: g / jnp.sqrt(n - m * m + h['eps']), g, nu, mu)
  else: u = tmap(lambda g, n: g / jnp.sqrt(n + h['eps']), g, nu)
  u, t = momentum(h, neg(lr, u), S, c)
  return u, dict(s, **t)

HM = lambda c: dict(mom=c.real('mom')) if c.v.get('mom') else {}
R['sgd'] = (HM, lambda c, lr, h: optax.sgd(lr, **mk(c, h)), lambda c, h, p: mom0(c, p), sgd_step)
R['rmsprop'] = (lambda c: dict(HM(c), d=c.real('d', 0, 1, hi_open=True), eps=c.real('eps', 0, lo_open=True), a=c.real('a', 0)),
                lambda c, lr, h: optax.rmsprop(lr, decay=h['d'], eps=h['eps'], initial_scale=h['a'], centered=c.v['centered'], **mk(c, h)),
                lambda c, h, p: dict(mom0(c, p), nu=full(p, h['a']), **(dict(mu=zeros(p)) if c.v['centered'] else {})), rms_step)

LR = ['const', 'sched']
TREE = ['nest'] + (['scalar', 'empty', 'ranks', 'pair'] if THOROUGH else [])
V = cross(opt=['adam', 'adabelief', 'adamw', 'lamb', 'radam', 'adagrad'], lr=LR, tree=TREE) + \
    cross(opt=['sgd'], lr=LR, mom=[None, 'heavy', 'nesterov'], tree=TREE) + \
    cross(opt=['rmsprop'], lr=LR, mom=[None, 'heavy', 'nesterov'], centered=[False, True], tree=TREE)


def rate(c):
  """(argument, value at count n)."""
  if c.v['lr'] == 'const':
    lr = c.real('lr'); return lr, lambda n: lr
  f = sched(c, 'lr')
  return f, f


def compare(c, tag, state, want, n=None):
  got = fields(state)
  for k, w in want.items():
    c.check('%s has %s' % (tag, k), k in got, 'missing')
    for i, x in enumerate(got.get(k, [])): c.eq('%s %s' % (tag, k), x, w)
  for i, x in enumerate(got.get('count', [])): c.eq('%s count %d' % (tag, i), x, n)


@contract('rule', [A + o for o in list(R)], V, depth=6, limit=40)
def rule(c):
  hyper, make, start, step = R[c.v['opt']]
  h = hyper(c)
  lr, at = rate(c)
  tx = make(c, lr, h)
  g, p = c.tree('g'), c.tree('p')
  s0 = tx.init(p)
  compare(c, 'init', s0, start(c, h, p), zero32())
  s, S = arbitrary(c, s0, ('nu', 'sum_of_squares'))
  if c.v.get('centered'):
    for x, y in zip(leaves(S['nu']), leaves(S['mu'])): c.require(x >= y * y)
  n = S.get('count', c.count('n', hi=I32MAX - 1) if 'count' not in S else None)
  u, s1 = tx.update(g, s, p)
  w, ws = step(c, h, at(n).astype(jnp.result_type(at(n))) if c.v['lr'] == 'sched' else at(n), g, p, S, n)
  c.eq('update', u, w)
  compare(c, 'state', s1, ws, n + 1)
  c.same_type('state type', s1, s)


def defaults(name):
  return {
      'adam': dict(b1=0.9, b2=0.999, eps=1e-8, root=0.0), 'adabelief': dict(b1=0.9, b2=0.999, eps=1e-8),
      'adamw': dict(b1=0.9, b2=0.999, eps=1e-8, root=0.0, wd=1e-4), 'lamb': dict(b1=0.9, b2=0.999, eps=1e-6, root=0.0, wd=0.0),
      'radam': dict(b1=0.9, b2=0.999, eps=1e-8, root=0.0, thr=5.0), 'adagrad': dict(a=0.1, eps=1e-7), 'sgd': {},
      'rmsprop': dict(d=0.9, eps=1e-8, a=0.0)}[name]


@contract('defaults', [A + o for o in R], cross(opt=list(R), centered=[False], tree=['scalar']))
def default(c):
  """Only the learning rate given: the documented default hyperparameters."""
  _, make, start, step = R[c.v['opt']]
  h = defaults(c.v['opt'])
  lr = c.real('lr')
  a, b = getattr(optax, c.v['opt'])(lr), make(c, lr, h)
  g, p = c.tree('g'), c.tree('p')
  sa, sb = a.init(p), b.init(p)
  compare(c, 'init', sa, start(c, h, p), zero32())
  s, S = arbitrary(c, sa, ('nu', 'sum_of_squares'))
  n = S.get('count', jnp.int32(3))
  c.eq('update', a.update(g, s, p)[0], b.update(g, s, p)[0])


@contract('fromage', [A + 'fromage'], cross(tree=TREE, mn=['given', 'default']))
def fromage(c):
  """(p + u) = (p - lr*ratio*g)/sqrt(1+lr^2)."""
  lr = c.real('lr')
  mn = c.real('mn', 0, lo_open=True) if c.v['mn'] == 'given' else 1e-6
  tx = optax.fromage(lr, min_norm=mn) if c.v['mn'] == 'given' else optax.fromage(lr)
  g, p = c.tree('g'), c.tree('p')
  s = tx.init(p)
  u, s1 = tx.update(g, s, p)
  k = 1 / jnp.sqrt(1 + lr * lr)
  c.eq('update', u, tmap(lambda r, p: -lr * k * r + (k - 1) * p, trust(g, p, mn), p))
  c.check('no state', leaves(s) == [] and leaves(s1) == [])


@contract('yogi', [A + 'yogi'], cross(lr=LR, tree=TREE, h=['given', 'default']))
def yogi(c):
  """Moments under C07; here: the step built from them."""
  h = BE(c) if c.v['h'] == 'given' else dict(b1=0.9, b2=0.999, eps=1e-3)
  lr, at = rate(c)
  tx = optax.yogi(lr, b1=h['b1'], b2=h['b2'], eps=h['eps']) if c.v['h'] == 'given' else optax.yogi(lr)
  e = optax.scale_by_yogi(b1=h['b1'], b2=h['b2'], eps=h['eps'])
  g, p = c.tree('g'), c.tree('p')
  s0 = tx.init(p)
  compare(c, 'init', s0, dict(mu=full(p, 1e-6), nu=full(p, 1e-6)), zero32())
  s, S = arbitrary(c, s0, ('nu',))
  n = S['count']
  u, s1 = tx.update(g, s, p)
  d, es = e.update(g, optax.ScaleByAdamState(count=n, mu=S['mu'], nu=S['nu']))
  m = ema_(h['b1'], S['mu'], g); t = n + 1
  w = tmap(lambda m, v: (m / (1 - h['b1'] ** t)) / (jnp.sqrt(v / (1 - h['b2'] ** t)) + h['eps']), m, es.nu)
  c.eq('update', u, neg(at(n), w))
  compare(c, 'state', s1, dict(mu=m, nu=es.nu), n + 1)


@contract('sm3', [A + 'sm3'], cross(tree=TREE, h=['given', 'default']))
def sm3(c):
  """-lr times the SM3 rule of C10 with b2 = 1."""
  lr = c.real('lr')
  b = c.real('mom', 0, 1, hi_open=True) if c.v['h'] == 'given' else 0.9
  tx = optax.sm3(lr, momentum=b) if c.v['h'] == 'given' else optax.sm3(lr)
  e = optax.scale_by_sm3(b1=b, b2=1.0, eps=1e-8)
  g, p = c.tree('g'), c.tree('p')
  s, S = arbitrary(c, tx.init(p), ('mu',))
  u, s1 = tx.update(g, s, p)
  d, es = e.update(g, optax.ScaleBySM3State(mu=S['mu'], nu=S['nu']))
  c.eq('update', u, neg(lr, d)); compare(c, 'state', s1, dict(mu=es.mu, nu=es.nu))
  compare(c, 'init', tx.init(p), dict(mu=e.init(p).mu, nu=e.init(p).nu))


@contract('noisy_sgd', [A + 'noisy_sgd', EL + 'add_noise'], cross(lr=LR, tree=TREE, h=['given', 'default']))
def noisy(c):
  """-lr*(g + noise): the noise of add_noise (C19) on the gradients, then the rate."""
  lr, at = rate(c)
  if c.v['h'] == 'given':
    eta, gam = c.real('eta', 0), c.real('gam', 0)
    seed = 7
    tx = optax.noisy_sgd(lr, eta=eta, gamma=gam, seed=seed)
  else:
    eta, gam, seed = 0.01, 0.55, 0
    tx = optax.noisy_sgd(lr)
  e = optax.add_noise(eta, gam, seed)
  g, p = c.tree('g'), c.tree('p')
  s0 = tx.init(p)
  c.eq('init key', fields(s0)['rng_key'][0], e.init(p).rng_key)
  s, S = arbitrary(c, s0)
  n = S['count']
  u, s1 = tx.update(g, s, p)
  d, es = e.update(g, optax.AddNoiseState(count=n, rng_key=S['rng_key']))
  c.eq('update', u, neg(at(n), d))
  compare(c, 'state', s1, dict(rng_key=es.rng_key), n + 1)


BATCH = {'w': Leaf('B', 'a'), 'b': (Leaf('B', 'a', 'b'), None, Leaf('B'))}
PAR = {'w': Leaf('a'), 'b': (Leaf('a', 'b'), None, Leaf())}


@contract('dpsgd', [A + 'dpsgd'], cross(lr=LR, mom=[None, 'heavy', 'nesterov']))
def dpsgd(c):
  """DP aggregation (C18) first, then momentum, then the rate."""
  h = HM(c)
  lr, at = rate(c)
  clip, nm = c.real('clip', 0, lo_open=True), c.real('nm', 0)
  tx = optax.dpsgd(lr, clip, nm, 3, **mk(c, h))
  e = optax.differentially_private_aggregate(clip, nm, 3)
  g, p = c.tree('g', like=BATCH), c.tree('p', like=PAR)
  s0 = tx.init(p)
  c.eq('init key', fields(s0)['rng_key'][0], e.init(p).rng_key)
  compare(c, 'init', s0, mom0(c, p), zero32())
  s, S = arbitrary(c, s0)
  n = S.get('count', jnp.int32(0))
  u, s1 = tx.update(g, s, p)
  d, es = e.update(g, e.init(p)._replace(rng_key=S['rng_key']))
  w, ws = momentum(h, d, S, c)
  c.eq('update', u, neg(at(n), w))
  compare(c, 'state', s1, dict(ws, rng_key=es.rng_key), n + 1)
