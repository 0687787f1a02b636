"""Leaf independence and elementwise uniformity, for every per-leaf transformation.

Independence: two trees share some leaves (renamed, reordered, nested differently, next to
other leaves). Relation: the shared leaves have equal parameters and per-leaf states and the
counters agree. It holds after init and is preserved by update, which returns equal updates
for the shared leaves; hence for every history.
Uniformity: the update of a vector leaf is the update of a scalar leaf applied to each element
(same counters), for arbitrary length."""
from lib import *

BUDGET = 400
X, Y, S = Leaf('a', 'b'), Leaf('d'), Leaf()
# the leaves next to the shared ones have other precisions
Z, W = Leaf('e', 'a', 'b', dtype='float16'), Leaf('a', 'b', dtype='bfloat16')
T1 = {'a': X, 'b': {'y': Y, 'n': None}, 's': S}
T2 = {'extra': W, 'k': [Y, {'n': Z}], 'm': (None, S, X)}
PICK = [lambda t: t['a'], lambda t: t['b']['y'], lambda t: t['s']], [lambda t: t['m'][2], lambda t: t['k'][0], lambda t: t['m'][1]]
NAMES = ['X', 'Y', 'S']
# many leaves, higher ranks: the shared leaves are the ones of T1, at other places
X3, Y4 = Leaf('a', 'b', 'd'), Leaf('a', 'b', 'a', 'b')
# hyperparameters are shared state, kept in the precision of the first parameter leaf
ONE = ['flatten', 'inject_hyperparams']
MORE = [Leaf(), Leaf('e', dtype='bfloat16'), Leaf('a', 'b')]
R1 = {'a': X3, 'b': {'y': Y4, 'n': None}, 's': S}
LEAF = [n for n in ZOO if ZOO[n].kind != 'global']
ELEMENT = [n for n in LEAF if ZOO[n].kind == 'element' and not n.startswith(('flatten', 'masked', 'lookahead'))]


def put(c, tag, t1, n=None):
  """A tree laid out like T2 whose shared leaves are those of t1; the others are arbitrary."""
  x, y, s = [f(t1) for f in PICK[0]]
  sh = lambda v: [getattr(v, 'shape', None)]
  low = c.v.get('tx') not in ONE
  mk = lambda nm, l: c.array('%s%s' % (tag, nm), l.shape, **({'dtype': l.dtype} if l.dtype and low else {}))
  big = c.v['tree'] is R1
  return {'extra': [mk('W%d' % i, MORE[i % 3]) for i in range(10)] if big else mk('W', W), 'k': [y, {'n': mk('Z', Z)}], 'm': (None, s, x),
          **({'z': tuple(mk('V%d' % i, MORE[i % 3]) for i in range(10))} if big else {})}


def isnt(s): return isinstance(s, tuple) and hasattr(s, '_fields')


def follows(td, s):
  """Subtrees of s at the leaves of td, or None."""
  if td.num_leaves < 2: return None
  try: return td.flatten_up_to(s)
  except (ValueError, TypeError): return None


def masks(p): return [x for x in leaves(p) if x.ndim != 1]


class Layout:
  """Correspondence of the states for two parameter trees with the shared leaves."""
  def __init__(self, p1, p2):
    self.forms = []
    for pick in (lambda p: (p, list(range(len(leaves(p))))), lambda p: (masks(p), [i for i, x in enumerate(leaves(p)) if x.ndim != 1])):
      a, ia = pick(p1); b, ib = pick(p2)
      self.forms.append((struct(a), ia, struct(b), ib))
    # position of the shared leaves: leaf index in T2 -> leaf index in T1
    i1 = {n: _find(p1, f(p1)) for n, f in zip(NAMES, PICK[0])}
    i2 = {n: _find(p2, f(p2)) for n, f in zip(NAMES, PICK[1])}
    self.of = {i2[n]: i1[n] for n in NAMES}
    self.p1, self.p2 = leaves(p1), leaves(p2)

  def pairs(self, s1, s2, out):
    """Corresponding pieces: ('shared', a, b), ('leaf', a, b) and ('flat', a, b)."""
    if isnt(s1):
      for f in s1._fields: self.pairs(getattr(s1, f), getattr(s2, f), out)
      return
    for ta, ia, tb, ib in self.forms:
      a, b = follows(ta, s1), follows(tb, s2)
      if a is not None and b is not None:
        for k, x in zip(ib, b):
          if k in self.of and self.of[k] in ia: out.append(('leaf', a[ia.index(self.of[k])], x))
        return
    if isinstance(s1, (list, tuple)):
      for a, b in zip(s1, s2): self.pairs(a, b, out)
      return
    if isinstance(s1, dict):
      for k in s1: self.pairs(s1[k], s2[k], out)
      return
    if hasattr(s1, 'shape') and len(s1.shape) == 1 and jnp.issubdtype(s1.dtype, jnp.floating) and tuple(s1.shape) != tuple(s2.shape):
      A, B = self.split(s1, self.p1), self.split(s2, self.p2)
      for k in self.of: out.append(('leaf', A[self.of[k]], B[k]))
      return
    out.append(('shared', s1, s2))

  def split(self, v, ps):
    o, r = 0, []
    for p in ps:
      n = 1
      for d in p.shape: n = n * d
      r.append(jax.lax.dynamic_slice_in_dim(v, o, n).reshape(p.shape) if not ps is None else v); o = o + n
    return r

  def move(self, s1, s2, new):
    """s2 with the shared pieces of s1."""
    if isnt(s1): return type(s2)(*[self.move(getattr(s1, f), getattr(s2, f), new) for f in s1._fields])
    for ta, ia, tb, ib in self.forms:
      a, b = follows(ta, s1), follows(tb, s2)
      if a is not None and b is not None:
        return jax.tree_util.tree_unflatten(tb, [a[ia.index(self.of[k])] if k in self.of and self.of[k] in ia else x for k, x in zip(ib, b)])
    if isinstance(s1, (list, tuple)): return type(s2)(self.move(a, b, new) for a, b in zip(s1, s2))
    if isinstance(s1, dict): return {k: self.move(s1[k], s2[k], new) for k in s1}
    if hasattr(s1, 'shape') and len(s1.shape) == 1 and jnp.issubdtype(s1.dtype, jnp.floating): raise Flat
    return s1


class Flat(Exception): pass


def _find(t, x): return [y is x for y in leaves(t)].index(True)


@contract('independence', sorted({ZOO[n].target for n in LEAF}), cross(tx=[n for n in LEAF if n != 'flatten'], tree=[T1, R1]), rounding=True)
def independence(c):
  z = ZOO[c.v['tx']]
  m = Memo(c)
  tx, ty = z.make(m), z.make(m)
  g1, p1, _ = zoo_args(c, z)
  g2 = put(c, 'h', g1)
  q = (lambda p: p.fast) if z.pair else (lambda p: p)
  p2 = optax.LookaheadParams(fast=put(c, 'q', p1.fast), slow=put(c, 'qs', p1.slow)) if z.pair else put(c, 'q', p1)
  L = Layout(q(p1), q(p2))

  def related(tag, s1, s2):
    out = []; L.pairs(s1, s2, out)
    for k, (kind, a, b) in enumerate(out): c.eq('%s %s %d' % (tag, kind, k), b, a)
  i1, i2 = tx.init(p1), ty.init(p2)
  related('init', i1, i2)
  s1 = any_state(c, i1, 's'); s2 = L.move(s1, any_state(c, i2, 't'), None)
  u1, n1 = tx.update(g1, s1, p1)
  u2, n2 = ty.update(g2, s2, p2)
  related('state', n1, n2)
  for part in (('fast', 'slow') if z.pair else (None,)):
    a, b = (getattr(u1, part), getattr(u2, part)) if part else (u1, u2)
    for n, f, h in zip(NAMES, *PICK): c.eq('update of %s%s' % (n, ' ' + part if part else ''), h(b), f(a))


@contract('flatten', [ZOO['flatten'].target], cross(tree=[T1]))
def flat(c):
  """flatten keeps one vector per moment: the pieces of the vector are the per-leaf states."""
  h = dict(b1=rates(c, 'b1'), b2=rates(c, 'b2'), eps=c.real('eps', 0, lo_open=True))
  tx, e = optax.flatten(optax.scale_by_adam(**h)), optax.scale_by_adam(**h)
  vec = lambda t: jnp.concatenate([jnp.reshape(x, (-1,)) for x in leaves(t)])
  out = []
  g1 = c.tree('g'); g2 = put(c, 'h', g1)
  m1 = c.tree('m'); m2 = put(c, 'mm', m1)
  v1 = c.tree('v', nonneg=True); v2 = put(c, 'vv', v1)
  if not c.symbolic: v2 = tmap(jnp.abs, v2)
  n = c.count('n', hi=I32MAX - 1)
  p1 = c.tree('p'); p2 = put(c, 'q', p1)
  from optax._src import transform
  u1, s1 = tx.update(g1, transform.ScaleByAdamState(n, vec(m1), vec(v1)), p1)
  u2, s2 = tx.update(g2, transform.ScaleByAdamState(n, vec(m2), vec(v2)), p2)
  for nm, f, k in zip(NAMES, *PICK): c.eq('update of %s' % nm, k(u2), f(u1))


@contract('uniformity', sorted({ZOO[n].target for n in ELEMENT}), cross(tx=ELEMENT))
def uniformity(c):
  z = ZOO[c.v['tx']]
  m = Memo(c)
  tx = z.make(m)
  g, p = {'w': c.array('g', ('n',))}, {'w': c.array('p', ('n',))}
  s0 = tx.init(p)
  s = any_state(c, s0, 's')
  u, s1 = tx.update(g, s, p)
  ax = tmap(lambda x: 0 if len(jnp.shape(x)) == 1 and jnp.issubdtype(x.dtype, jnp.floating) else None, s)
  ty = z.make(m)
  same = struct(s) == struct(ty.init(tmap(lambda x: x[0], p)))
  c.check('same state layout for a scalar', same)
  flat, td = jax.tree_util.tree_flatten(s)
  axes = [0 if len(jnp.shape(x)) == 1 and jnp.issubdtype(x.dtype, jnp.floating) else None for x in flat]

  def one(g, p, *st):
    u, s1 = ty.update({'w': g}, jax.tree_util.tree_unflatten(td, st), {'w': p})
    return u['w'], leaves(s1)
  w, t1 = jax.vmap(one, in_axes=(0, 0) + tuple(axes))(g['w'], p['w'], *flat)
  c.eq('update', u['w'], w)
  for k, (x, y, a) in enumerate(zip(leaves(s1), t1, axes)):
    if a == 0: c.eq('state %d' % k, x, y)
    elif jnp.result_type(x) == jnp.bool_: c.check('flag', jnp.shape(x) == ())
    else: c.eq('counter %d' % k, jnp.broadcast_to(x, y.shape), y)
