"""masked."""
import collections
from lib import *

T = ['optax/_src/wrappers.py:masked']
NT = collections.namedtuple('NT', 'x y')
BIG = {'z': (Leaf('a', 'b'), [Leaf()]), 'a': {'y': Leaf('b'), 'n': None}, 'm': NT(Leaf('a'), Leaf('b', 'a'))}
CASES = {
    'full': (BIG, {'z': (True, [False]), 'a': {'y': True, 'n': None}, 'm': NT(False, True)}),
    'full2': (BIG, {'z': (False, [True]), 'a': {'y': False, 'n': None}, 'm': NT(True, False)}),
    'prefix': (BIG, {'z': True, 'a': False, 'm': NT(True, False)}),
    'prefix2': (BIG, {'z': (False, True), 'a': True, 'm': False}),
    'all': (BIG, True),
    'none': (BIG, False),
    'all leaves': (BIG, {'z': (True, [True]), 'a': {'y': True, 'n': None}, 'm': NT(True, True)}),
    'no leaf': (BIG, {'z': (False, [False]), 'a': {'y': False, 'n': None}, 'm': NT(False, False)}),
    'numpy': (BIG, {'z': (np.bool_(True), [np.bool_(False)]), 'a': {'y': np.bool_(False), 'n': None}, 'm': NT(np.bool_(True), np.bool_(True))}),
    'bare': (Leaf('a', 'b'), True),
    'bare off': (Leaf('a', 'b'), False),
    'scalar': (Leaf(), True),
    'list': ([Leaf('a'), Leaf('a'), Leaf('a'), Leaf('a')], [False, True, False, True]),
    'tuple': ((Leaf('a'), Leaf(), Leaf('b')), (True, False, True)),
    'order': ({'c': Leaf('a'), 'b': Leaf('a'), 'a': Leaf('a')}, {'c': True, 'b': False, 'a': True}),
    'subtree none': ({'k': None, 'p': Leaf('a')}, {'k': True, 'p': True}),
    'empty': ({}, {}),
    'mixed': ({'h': Leaf('a', dtype='bfloat16'), 'f': Leaf('a', 'b')}, {'h': True, 'f': False}),
}


def entries(mask, tree):
  """(mask entry, subtree) pairs in tree order."""
  if mask is None: return []
  if isinstance(mask, (bool, np.bool_)): return [(bool(mask), tree)]
  if isinstance(mask, dict): return [e for k in sorted(mask) for e in entries(mask[k], tree[k])]
  return [e for m, t in zip(mask, tree) for e in entries(m, t)]


def put(mask, tree, new):
  """The tree with the masked entries replaced, in tree order."""
  if mask is None: return None
  if isinstance(mask, (bool, np.bool_)): return next(new) if mask else tree
  if isinstance(mask, dict):
    r = {k: put(mask[k], tree[k], new) for k in sorted(mask)}
    return {k: r[k] for k in tree}
  r = [put(m, t, new) for m, t in zip(mask, tree)]
  return type(tree)(*r) if hasattr(tree, '_fields') else type(tree)(r)


@contract('masked', T, cross(case=list(CASES), how=['tree', 'callable'], par=[True, False]))
def masked(c):
  tree, mask = CASES[c.v['case']]
  inner = c.opaque_tx('in')
  seen = []

  def mf(x):
    seen.append(struct(x)); return mask
  tx = optax.masked(inner, mf if c.v['how'] == 'callable' else mask)
  g, p = c.tree('g', tree, special=True), c.tree('p', tree, special=True)
  s0 = tx.init(p)
  sel = lambda t: [x for m, x in entries(mask, t) if m]
  want0 = inner.init(sel(p))
  c.eq('inner init', s0.inner_state, want0)
  st = tmap(lambda x: c.array('st', x.shape, x.dtype), want0)
  u, s1 = tx.update(g, s0._replace(inner_state=st), p) if c.v['par'] else tx.update(g, s0._replace(inner_state=st))
  iu, is_ = inner.update(sel(g), st, *([sel(p)] if c.v['par'] else []))
  c.eq('inner state', s1.inner_state, is_)
  c.eq('updates', u, put(mask, g, iter(iu)))
  c.check('callable mask', c.v['how'] == 'tree' or (seen and all(x == struct(g) for x in seen)), 'the callable got %s' % seen)


@contract('masked.by shape', T, cross(tree=['nest', 'ranks', 'pair', 'vec', 'scalar']))
def byshape(c):
  """A callable mask is evaluated on the params in init and on the updates in update; the mask of the
  README example selects the leaves of rank other than one."""
  f = lambda t: tmap(lambda x: x.ndim != 1, t)
  k = c.real('k')
  tx = optax.masked(optax.add_decayed_weights(k), f)
  g, p = c.tree('g'), c.tree('p')
  u, _ = tx.update(g, tx.init(p), p)
  c.eq('decay', u, tmap(lambda g, p: g + k * p if g.ndim != 1 else g, g, p))
