"""Yogi."""
from lib import *
from optax._src import transform


def yogi_nu(b2, v, g): return v - (1 - b2) * jnp.sign(v - g * g) * (g * g)


def yogi_nu_known(b2, v, g):
  """Known deviation (known_findings.json): the signed square is squared again."""
  return b2 * v + (1 - b2) * (jnp.sign(v - g * g) * (g * g)) ** 2


def setup(c):
  b1, b2 = rates(c, 'b1', 'b2')
  eps, root = c.real('eps', 0, lo_open=True), c.real('root', 0)
  tx = optax.scale_by_yogi(b1=b1, b2=b2, eps=eps, eps_root=root)
  g = c.tree('g'); m = c.tree('m'); v = c.tree('v', nonneg=True); n = c.count('n', hi=I32MAX - 1)
  u, s = tx.update(g, transform.ScaleByAdamState(count=n, mu=m, nu=v))
  return b1, b2, eps, root, g, m, v, n, u, s


@contract('scale_by_yogi.rule', ['optax/_src/transform.py:scale_by_yogi'], trees=FAMILY)
def rule(c):
  """The documented additive second moment."""
  b1, b2, eps, root, g, m, v, n, u, s = setup(c)
  for i, (v1, v0, x) in enumerate(zip(leaves(s.nu), leaves(v), leaves(g))):
    c.eq('nu[%d]' % i, v1, yogi_nu(b2, v0, x))
    c.holds('bounded change[%d]' % i, jnp.abs(v1 - v0) <= (1 - b2) * x * x)


@contract('scale_by_yogi.update', ['optax/_src/transform.py:scale_by_yogi'], trees=FAMILY)
def update(c):
  """First moment, counter, non-negativity, and the output as a function of the new moments."""
  b1, b2, eps, root, g, m, v, n, u, s = setup(c)
  c.eq('mu', s.mu, ema_(b1, m, g)); c.eq('count', s.count, n + 1)
  t = n + 1
  c.eq('update', u, tmap(lambda m, v: (m / (1 - b1 ** t)) / (jnp.sqrt(v / (1 - b2 ** t) + root) + eps), ema_(b1, m, g), s.nu))
  for i, (v1, v0, x) in enumerate(zip(leaves(s.nu), leaves(v), leaves(g))):
    c.holds('nu non-negative[%d]' % i, v1 >= 0)
    # either the documented rule or exactly the listed deviation from it
    c.holds('nu as documented or as listed[%d]' % i, (v1 == yogi_nu(b2, v0, x)) | (v1 == yogi_nu_known(b2, v0, x)) if c.symbolic else
            jnp.isclose(v1, yogi_nu(b2, v0, x), rtol=1e-6) | jnp.isclose(v1, yogi_nu_known(b2, v0, x), rtol=1e-6))


@contract('scale_by_yogi.init', ['optax/_src/transform.py:scale_by_yogi'], trees=FAMILY)
def init(c):
  p = c.tree('p'); a = c.real('a', 0, lo_open=True)
  s = optax.scale_by_yogi(b1=c.real('b1'), b2=c.real('b2'), initial_accumulator_value=a).init(p)
  c.eq('count', s.count, zero32()); c.eq('mu', s.mu, tmap(lambda x: jnp.full_like(x, a), p)); c.eq('nu', s.nu, tmap(lambda x: jnp.full_like(x, a), p))
  d = optax.scale_by_yogi().init(p)
  c.eq('default', d.nu, tmap(lambda x: jnp.full_like(x, 1e-6), p))
