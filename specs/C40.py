"""Second-order helpers: the loss is an arbitrary smooth function with uninterpreted derivatives."""
from lib import *

S = 'optax/_src/second_order.py:'
TR = ['vec', 'scalar', 'pair', 'nest'] + (['wide'] if THOROUGH else [])


def size(x):
  n = 1
  for d in x.shape: n = n * d
  return n


def ravel(t):
  return jnp.concatenate([x.reshape((size(x),)) for x in leaves(t)])


def setup(c):
  F = c.smooth('F')
  return F, c.tree('p'), c.array('x', ('m', 'a')), c.array('y', ('m',))


def hv(F, p, x, y, v):
  """H v leaf by leaf: sum over leaves l and their elements of d2F/dp_k dp_l v_l."""
  L, V = leaves(p), leaves(v)
  out = []
  for k, a in enumerate(L):
    r = jnp.zeros_like(a)
    for l, b in enumerate(L):
      D = F.d((k, l), p, x, y)
      r = r + jnp.sum(D * V[l].reshape((1,) * a.ndim + tuple(b.shape)), axis=tuple(range(a.ndim, a.ndim + b.ndim)))
    out.append(r)
  return jax.tree_util.tree_unflatten(struct(p), out)


@contract('hvp', [S + 'hvp'], cross(tree=TR))
def hvp(c):
  from optax._src import second_order
  F, p, x, y = setup(c)
  v, w = c.tree('v'), c.tree('w')
  r = optax.hvp(F, ravel(v), p, x, y)
  c.check('tree of the parameters', struct(r) == struct(p))
  c.same_type('type', r, p)
  c.eq('product', r, hv(F, p, x, y, v))
  k = c.real('k')
  lin = optax.hvp(F, ravel(v) + k * ravel(w), p, x, y)
  c.eq('linear', lin, tmap(lambda a, b: a + k * b, r, optax.hvp(F, ravel(w), p, x, y)))


@contract('hessian_diag', [S + 'hessian_diag'], cross(tree=TR))
def diag(c):
  F, p, x, y = setup(c)
  r = optax.hessian_diag(F, p, x, y)
  want = []
  for k, a in enumerate(leaves(p)):
    D = F.d((k, k), p, x, y).reshape((size(a), size(a)))
    want.append(jnp.diagonal(D) if not c.symbolic else jax.vmap(lambda i: D[i, i])(jnp.arange(size(a))))
  c.eq('diagonal in leaf order', r, jnp.concatenate(want))


@contract('fisher_diag', [S + 'fisher_diag'], cross(tree=TR))
def fisher(c):
  F, p, x, y = setup(c)
  r = optax.fisher_diag(F, p, x, y)
  c.eq('squared gradient in leaf order', r, jnp.concatenate([(F.d((k,), p, x, y) ** 2).reshape((size(a),)) for k, a in enumerate(leaves(p))]))
