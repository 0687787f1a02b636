"""apply_updates."""
from lib import *

DT = ['float32', 'float16', 'bfloat16']


@contract('apply_updates', ['optax/_src/update.py:apply_updates'],
          cross(pd=DT, ud=DT, tree=FAMILY[:2]) + [dict(pd='float32', ud='float32', tree=t) for t in FAMILY[2:] + ['mixed']])
def add(c):
  """Adds elementwise and keeps the structure, shapes and dtypes of the parameters."""
  p = c.tree('p', dtype=None if c.v['tree'] == 'mixed' else c.v['pd'])
  u = c.tree('u', dtype=c.v['ud'], special=c.v['pd'] == c.v['ud'] == 'float32')
  before = snapshot(p, u)
  r = optax.apply_updates(p, u)
  c.same_type('type', r, p)
  c.eq('sum', r, tmap(lambda p, u: (p + u).astype(p.dtype), p, u))
  c.check('arguments unmodified', snapshot(p, u) == before)


@contract('apply_updates.int', ['optax/_src/update.py:apply_updates'], trees=['nest'])
def add_int(c):
  """Integer parameters."""
  p = c.tree('p', dtype='int32', lo=-2**30, hi=2**30 - 1); u = c.tree('u', dtype='int32', lo=-2**30, hi=2**30)
  r = optax.apply_updates(p, u)
  c.same_type('type', r, p)
  c.eq('sum', r, tmap(lambda p, u: p + u, p, u))


@contract('apply_updates.int params', ['optax/_src/update.py:apply_updates'], cross(ud=DT), trees=['nest'])
def add_int_float(c):
  """Integer parameters with floating updates: the sum is converted, not the update."""
  p = c.tree('p', dtype='int32', lo=-1000, hi=1000); u = c.tree('u', dtype=c.v['ud'])
  r = optax.apply_updates(p, u)
  c.same_type('type', r, p)
  c.eq('sum', r, tmap(lambda p, u: (p + u).astype(p.dtype), p, u))


@contract('apply_updates.numbers', ['optax/_src/update.py:apply_updates'], cross(kind=['float', 'int', 'np', 'npscalar']))
def add_num(c):
  """Python and NumPy numbers as parameters."""
  k = c.v['kind']
  a = np.array([1.5, -2.0, 0.25], np.float32)
  p = {'x': {'float': 1.25, 'int': 3, 'np': a, 'npscalar': np.float32(0.75)}[k], 'n': None}
  u = {'x': c.array('u', (3,) if k == 'np' else (), dtype='int32' if k == 'int' else None, **(dict(lo=-100, hi=100) if k == 'int' else {})) if not (c.symbolic and k != 'int') else c.array('u', (3,) if k == 'np' else ()), 'n': None}
  before = snapshot(p)
  r = optax.apply_updates(p, u)
  c.check('structure', struct(r) == struct(u) and r['n'] is None)
  c.check('is an array', hasattr(r['x'], 'dtype') and r['x'].dtype == jnp.asarray(p['x']).dtype, str(r['x']))
  c.eq('sum', r['x'], (jnp.asarray(p['x']) + u['x']).astype(jnp.asarray(p['x']).dtype))
  c.check('argument unmodified', snapshot(p) == before)
  # plain numbers as weakly typed scalars
  if k == 'float':
    x, y = c.real('x'), c.real('y')
    c.eq('number', optax.apply_updates(x, y), jnp.asarray(x) + y)
