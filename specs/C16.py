"""Global-norm clipping."""
from lib import *

T = ['optax/_src/clipping.py:clip_by_global_norm', 'optax/_src/linear_algebra.py:global_norm']


def sumsq(t): return sum([jnp.sum(x * x) for x in leaves(t)], jnp.float32(0))


@contract('clip_by_global_norm', T, cross(tree=['nest', 'scalar', 'empty', 'ranks', 'wide', 'pair']))
def clip(c):
  m = c.real('m', 0, lo_open=True); g = c.tree('g')
  if not c.symbolic and c.v['tree'] != 'empty' and c.rng.random() < 0.6:
    # tiny entries, and norms just below or above the bound
    if c.rng.random() < 0.5: g = tmap(lambda x: x * 10.0 ** -c.rng.integers(5, 12), g)
    m = float(jnp.sqrt(sumsq(g))) * (1 + c.rng.choice([-1, 1]) * 10.0 ** -c.rng.integers(1, 6)) or 1.0
  tx = optax.clip_by_global_norm(m)
  s = tx.init(g)
  u, s1 = tx.update(g, s)
  c.same_type('type', u, g)
  c.check('stateless', leaves(s) == [] and leaves(s1) == [])
  n = jnp.sqrt(sumsq(g))
  below = n < m
  k = jnp.where(below, 1.0, m / jnp.where(below, 1.0, n))
  c.eq('same factor on every leaf', u, tmap(lambda g: g * k, g))
  if not c.symbolic: c.eq('relative to the norm', tmap(lambda x: x / jnp.where(n > 0, n, 1.0), u), tmap(lambda g: g / jnp.where(n > 0, n, 1.0) * k, g))
  c.holds('factor', (k > 0) & (k <= 1))
  if c.v['tree'] in ('pair', 'scalar', 'empty') or not c.symbolic: c.eq('norm', sumsq(u), k * k * sumsq(g), dtype=False)


@contract('clip_by_global_norm.norm', [], [{}])
def lemma(c):
  """Lemma: with that factor k the squared joint norm k^2*S is S below the bound and max_norm^2 otherwise."""
  m, S = c.real('m', 0, lo_open=True), c.real('S', 0)
  n = jnp.sqrt(S)
  k = jnp.where(n < m, 1.0, m / jnp.where(n < m, 1.0, n))
  q = k * k * S
  c.eq('norm', q, jnp.where(n < m, S, m * m), dtype=False)
  c.holds('bounded', q <= m * m * (1 + (0 if c.symbolic else 1e-9)))


@contract('clip_by_global_norm.low precision', T, cross(tree=['nest', 'mixed'], dt=['bfloat16', 'float16', None]))
def low(c):
  """Dtypes of the leaves are kept (the arithmetic itself is specified in exact reals)."""
  m = c.real('m', 0.5); g = c.tree('g', dtype=c.v['dt'])
  u, _ = optax.clip_by_global_norm(m).update(g, optax.EmptyState())
  c.check('structure', struct(u) == struct(g))
  n = jnp.sqrt(sumsq(tmap(lambda x: x.astype(jnp.float32), g)))
  k = jnp.where(n < m, 1.0, m / jnp.where(n < m, 1.0, n))
  if c.symbolic:
    c.eq('same factor on every leaf', tmap(lambda x: x.astype(jnp.float32), u), tmap(lambda g: g.astype(jnp.float32) * k, g))
