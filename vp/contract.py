"""Executable contracts: one body, run symbolically (proof) and concretely (replay)."""
import contextlib
import hashlib
import itertools
import math
import time
import traceback

from . import boot  # noqa: F401
import jax
import jax.numpy as jnp
import numpy as np
from jax import core
from jax.experimental.export import shape_poly as sp
import optax

from . import terms as t
from . import interp as it
from . import smt
from .interp import Unsupported
from .terms import TRUE, FALSE, land, lor, lnot


class Reject(Exception):
  """Concrete inputs violate a precondition."""


class Skip(Exception):
  """The contract does not apply to this variant."""


class Failed(Exception):
  """A structural obligation failed."""


# ------------------------------------------------------------------ primitives
sym_p = core.Primitive('vp_sym')
uf_p = core.Primitive('vp_uf')
uf_p.multiple_results = True


class _Id:
  """Hashable wrapper compared by content."""
  def __init__(self, *a): self.a = a
  def __hash__(self): return hash(repr(self.a))
  def __eq__(self, o): return isinstance(o, _Id) and repr(self.a) == repr(o.a)
  def __repr__(self): return repr(self.a)


@sym_p.def_abstract_eval
def _sym_abs(*, name, aval, rng, fact, special):
  return aval.a[0]


@uf_p.def_abstract_eval
def _uf_abs(*args, name, avals, special):
  return list(avals.a)


from jax.interpreters import batching, ad  # noqa: E402


# An arbitrary smooth scalar function and its derivatives: D^k F(x1..xn), `der` naming the
# arguments differentiated (in order), `nb` leading batch dimensions on every argument.
smooth_p = core.Primitive('vp_smooth')


@smooth_p.def_abstract_eval
def _smooth_abs(*args, name, der, nb, dtype):
  sh = tuple(args[0].shape[:nb])
  for i in der: sh += tuple(args[i].shape[nb:])
  return core.ShapedArray(sh, np.dtype(dtype))


def _smooth_jvp(primals, tangents, *, name, der, nb, dtype):
  out = smooth_p.bind(*primals, name=name, der=der, nb=nb, dtype=dtype)
  tan = None
  for j, (x, dx) in enumerate(zip(primals, tangents)):
    if type(dx) is ad.Zero or dx.dtype == jax.dtypes.float0: continue
    nd = tuple(sorted(der + (j,)))
    pos = len(nd) - 1 - nd[::-1].index(j)
    D = smooth_p.bind(*primals, name=name, der=nd, nb=nb, dtype=dtype)
    ranks = [primals[i].ndim - nb for i in nd]
    at = nb + sum(ranks[:pos]); r = ranks[pos]
    perm = [d for d in range(D.ndim) if not at <= d < at + r] + list(range(at, at + r))
    D = jax.lax.transpose(D, perm)
    k = D.ndim - nb - r
    t_ = jax.lax.expand_dims(dx, list(range(nb, nb + k)))
    t_ = jnp.broadcast_to(t_, D.shape)
    y = D * t_.astype(D.dtype)
    y = jnp.sum(y, axis=tuple(range(D.ndim - r, D.ndim))) if r else y
    tan = y if tan is None else tan + y
  if tan is None: tan = ad.Zero(out.aval.at_least_vspace())
  return out, tan


def _smooth_batch(args, dims, *, name, der, nb, dtype):
  n = next(x.shape[d] for x, d in zip(args, dims) if d is not batching.not_mapped)
  xs = [jnp.broadcast_to(x, (n,) + tuple(x.shape)) if d is batching.not_mapped else jnp.moveaxis(x, d, 0) for x, d in zip(args, dims)]
  return smooth_p.bind(*xs, name=name, der=der, nb=nb + 1, dtype=dtype), 0


ad.primitive_jvps[smooth_p] = _smooth_jvp
batching.primitive_batchers[smooth_p] = _smooth_batch


class Smooth:
  """Symbolic: F(*args) scalar, F.d(which, *args) its derivatives by the leaves `which`."""
  def __init__(self, name): self.name = name

  def d(self, which, *args):
    flat = [jnp.asarray(x) for x in leaves(args)]
    nm = '%s<%s>' % (self.name, _seed_of(str(struct(args))))
    dt = next((str(x.dtype) for x in flat if jnp.issubdtype(x.dtype, jnp.floating)), 'float32')
    r = smooth_p.bind(*flat, name=nm, der=tuple(sorted(which)), nb=0, dtype=dt)
    if tuple(which) == tuple(sorted(which)): return r
    order = sorted(range(len(which)), key=lambda i: which[i])
    ranks = [flat[which[i]].ndim for i in order]
    starts = [sum(ranks[:k]) for k in range(len(ranks))]
    perm = []
    for i in range(len(which)):
      k = order.index(i); perm += list(range(starts[k], starts[k] + ranks[k]))
    return jax.lax.transpose(r, perm)

  def __call__(self, *args): return self.d((), *args)


class ConSmooth:
  """Concrete: one smooth function, derivatives by forward differentiation."""
  def __init__(self, name, fdt): self.name = name; self.fdt = fdt

  def __call__(self, *args):
    seed = _seed_of(self.name, str(struct(args)))
    a = b = jnp.asarray(0.0, self.fdt)
    for n, x in enumerate(leaves(args)):
      x = jnp.asarray(x).astype(self.fdt).reshape(-1)
      i = jnp.arange(x.shape[0], dtype=self.fdt)
      a = a + jnp.sum(x * jnp.cos(i * 1.7 + n * 2.3 + seed % 97)) * (0.31 + 0.07 * n)
      b = b + jnp.sum(x * x * jnp.sin(i * 0.7 + n + seed % 83)) * 0.2
    return jnp.sin(a + 0.3) * 1.3 + jnp.tanh(b) + 0.1 * a * b

  def d(self, which, *args):
    flat, td = jax.tree_util.tree_flatten(args)
    f = lambda *xs: self(*jax.tree_util.tree_unflatten(td, xs))
    for k in which: f = jax.jacfwd(f, k)
    return f(*[jnp.asarray(x) for x in flat])


# ------------------------------------------------------------------ path forking
CUR = [None]
_orig_bool = core.Tracer.__bool__
_orig_hash = getattr(core.Tracer, '__hash__', None)


def _outer(tr):
  c = CUR[0]
  seen = 0
  while not isinstance(tr, jax.interpreters.partial_eval.DynamicJaxprTracer):
    if hasattr(tr, 'primal'): tr = tr.primal
    else: return None
    seen += 1
    if not isinstance(tr, core.Tracer): return tr
  if tr._trace.main is not c.main: return None
  return tr


def _fork_bool(self):
  c = CUR[0]
  if c is None: return _orig_bool(self)
  if self.aval.shape != (): return _orig_bool(self)
  tr = _outer(self)
  if tr is None: return _orig_bool(self)
  if not isinstance(tr, core.Tracer): return bool(tr)
  return c.decide(tr)


core.Tracer.__bool__ = _fork_bool
core.Tracer.__hash__ = lambda self: id(self) >> 4

_orig_inc = sp._DimExpr.__bool__ if hasattr(sp._DimExpr, '__bool__') else None


# jnp.squeeze without axis: jax refuses symbolic dimensions.  A symbolic dimension
# that the code compares with 1 stands for sizes >= 2; size 1 has its own cases.
_orig_squeeze = jnp.squeeze


def _squeeze(a, axis=None):
  if axis is None and any(not isinstance(d, int) for d in np.shape(a)):
    axis = tuple(n for n, d in enumerate(np.shape(a)) if isinstance(d, int) and d == 1)
  return _orig_squeeze(a, axis)


jnp.squeeze = _squeeze

# numpy's product of a shape and jnp.split at positions computed from shapes, for symbolic dimensions
_orig_prod = np.prod
_orig_split = jnp.split


def _sym_shape(x): return isinstance(x, (tuple, list)) and (any(sp.is_poly_dim(d) for d in x) or (not x and CUR[0] is not None))


def _prod(a, *args, **kw):
  if args or kw or not _sym_shape(a): return _orig_prod(a, *args, **kw)
  n = 1
  for d in a: n = n * d
  return n


def _split(ary, indices_or_sections, axis=0):
  ix = indices_or_sections
  if CUR[0] is None or not isinstance(ix, (tuple, list)) or not (any(sp.is_poly_dim(i) for i in ix) or sp.is_poly_dim(ary.shape[axis])):
    return _orig_split(ary, ix, axis)
  pts = [0] + [int(i) if isinstance(i, float) and i == int(i) else i for i in ix] + [ary.shape[axis]]
  return [jax.lax.slice_in_dim(ary, a, b, axis=axis) for a, b in zip(pts, pts[1:])]


np.prod = _prod
jnp.split = _split

# jax.jacfwd/jacrev/hessian build a basis from numpy sizes; for symbolic dimensions: one jvp per unit vector.
_orig_jacfwd, _orig_jacrev, _orig_hessian = jax.jacfwd, jax.jacrev, jax.hessian


def _symbolic_args(args): return CUR[0] is not None and any(not isinstance(d, int) for x in leaves(args) for d in np.shape(x))


def _jacfwd(fun, argnums=0, has_aux=False, holomorphic=False):
  if has_aux or holomorphic: return _orig_jacfwd(fun, argnums, has_aux, holomorphic)
  orig = _orig_jacfwd(fun, argnums)

  def jac(*args, **kw):
    if not _symbolic_args(args) or not isinstance(argnums, int): return orig(*args, **kw)
    x = args[argnums]
    flat, td = jax.tree_util.tree_flatten(x)
    g = lambda *xs: fun(*args[:argnums], jax.tree_util.tree_unflatten(td, xs), *args[argnums + 1:], **kw)

    def column(n):
      a = flat[n]

      def one(*idx):
        e = jnp.ones((), a.dtype)
        for d, i in enumerate(idx):
          e = e * (jax.lax.broadcasted_iota(jnp.int32, a.shape, d) == i)
        dx = [jnp.zeros_like(b) for b in flat]
        dx[n] = jnp.broadcast_to(e, a.shape).astype(a.dtype)
        return jax.jvp(g, tuple(flat), tuple(dx))[1]
      f = one
      for d in reversed(range(a.ndim)):
        f = jax.vmap(f, in_axes=tuple(0 if k == d else None for k in range(a.ndim)), out_axes=0)
      r = f(*[jnp.arange(d) for d in a.shape])
      k = a.ndim
      return jax.tree_util.tree_map(lambda y: jnp.moveaxis(y, list(range(k)), list(range(y.ndim - k, y.ndim))) if k else y, r)
    cols = [column(n) for n in range(len(flat))]
    out = struct(cols[0])
    return jax.tree_util.tree_unflatten(out, [jax.tree_util.tree_unflatten(td, c) for c in zip(*[leaves(c) for c in cols])])
  return jac


def _jacrev(fun, argnums=0, *a, **k):
  orig = _orig_jacrev(fun, argnums, *a, **k)

  def jac(*args, **kw):
    if not _symbolic_args(args) or a or k or not isinstance(argnums, int): return orig(*args, **kw)
    if jax.eval_shape(fun, *args, **kw).shape != (): raise Unsupported('jacrev of an array-valued function')
    return jax.grad(fun, argnums)(*args, **kw)
  return jac


def _hessian(fun, argnums=0, *a, **k):
  if a or k or not isinstance(argnums, int): return _orig_hessian(fun, argnums, *a, **k)
  return _jacfwd(_jacrev(fun, argnums), argnums)


jax.jacfwd, jax.jacrev, jax.hessian = _jacfwd, _jacrev, _hessian


# ------------------------------------------------------------------ values
class Leaf:
  """Leaf specification: dims are names (symbolic) or ints."""
  def __init__(self, *shape, dtype=None):
    self.shape = tuple(shape); self.dtype = dtype

  def __repr__(self): return 'Leaf%r%s' % (self.shape, '' if self.dtype is None else ':' + str(self.dtype))


TREES = {
    'vec': Leaf('a'),
    'pair': {'w': Leaf('a', 'b'), 'b': Leaf('b')},
    'nest': {'z': (Leaf('a', 'b'), [Leaf()]), 'a': {'y': Leaf('b'), 'n': None}},
    'ranks': [Leaf(), Leaf('a'), Leaf('a', 'b'), Leaf('a', 'b', 'c'), Leaf('a', 'b', 'c', 'd')],
    'scalar': Leaf(),
    'empty': {},
    'mixed': {'h': Leaf('a', dtype='float16'), 'f': Leaf('a', 'b'), 'g': (Leaf(dtype='bfloat16'), None)},
    'wide': {'l%02d' % i: (Leaf('a'), Leaf('b', 'a'), {'q': Leaf()}) for i in range(4)},
}


def tmap(f, *trees):
  return jax.tree_util.tree_map(f, *trees)


def leaves(x): return jax.tree_util.tree_leaves(x)
def struct(x): return jax.tree_util.tree_structure(x)


def path_names(tree):
  out = []
  flat, _ = jax.tree_util.tree_flatten_with_path(tree, is_leaf=lambda x: isinstance(x, Leaf))
  for p, _l in flat:
    out.append(''.join(str(k).replace("'", '') for k in p).replace('[', '.').replace(']', ''))
  return out


def _seed_of(*xs):
  return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:4], 'big')


class Ctx:
  """Common interface; subclasses give symbolic or concrete values."""
  symbolic = False

  def __init__(self, variant):
    self.v = variant
    self.T = TREES.get(variant.get('tree')) if isinstance(variant.get('tree'), str) else variant.get('tree')
    self.obls = []       # names in order
    self.facts_n = 0

  # obligations ------------------------------------------------------
  def eq(self, name, got, want, dtype=True, shape=True):
    """Every element of `got` equals `want` (trees)."""
    sg, sw = struct(got), struct(want)
    if sg != sw:
      self.fail(name, 'structure %s, expected %s' % (sg, sw)); return
    for n, (x, y) in enumerate(zip(leaves(got), leaves(want))):
      nm = name if n == 0 and sg.num_leaves == 1 else '%s[%d]' % (name, n)
      if x is y and isinstance(x, core.Tracer):
        self.ok(nm); continue
      xs, ys = np.shape(x), np.shape(y)
      if shape and tuple(xs) != tuple(ys):
        self.fail(nm, 'shape %s, expected %s' % (xs, ys)); continue
      if dtype and jnp.result_type(x) != jnp.result_type(y):
        self.fail(nm, 'dtype %s, expected %s' % (jnp.result_type(x), jnp.result_type(y))); continue
      self._eq(nm, x, y)

  def holds(self, name, cond):
    for n, x in enumerate(leaves(cond)):
      if isinstance(x, (bool, np.bool_)):
        if not x: self.fail(name, 'false')
        else: self.ok(name)
      else: self._holds('%s[%d]' % (name, n) if n else name, x)

  def finite(self, name, tree):
    for n, x in enumerate(leaves(tree)):
      if jnp.issubdtype(jnp.result_type(x), jnp.floating): self._finite('%s[%d]' % (name, n), x)

  def same_type(self, name, got, want, weak=False):
    """Same structure, shapes, dtypes."""
    if struct(got) != struct(want):
      self.fail(name, 'structure %s, expected %s' % (struct(got), struct(want))); return
    for n, (x, y) in enumerate(zip(leaves(got), leaves(want))):
      if tuple(np.shape(x)) != tuple(np.shape(y)): self.fail(name, 'leaf %d shape %s, expected %s' % (n, np.shape(x), np.shape(y))); return
      if jnp.result_type(x) != jnp.result_type(y) and not (
          jnp.issubdtype(jnp.result_type(x), jax.dtypes.prng_key)):
        self.fail(name, 'leaf %d dtype %s, expected %s' % (n, jnp.result_type(x), jnp.result_type(y))); return
    self.ok(name)

  def check(self, name, cond, msg='false'):
    if cond: self.ok(name)
    else: self.fail(name, msg)

  def raises(self, name, exc, f):
    try:
      f()
    except exc:
      self.ok(name); return
    except (Unsupported, Reject, Skip): raise
    except Exception as e:
      self.fail(name, 'raised %s instead of %s' % (type(e).__name__, exc)); return
    self.fail(name, 'did not raise %s' % (exc,))

  def require_all(self, tree):
    for x in leaves(tree): self.require(x)

  # opaque objects -----------------------------------------------------
  def opaque_tx(self, name, special=False, state=True):
    """An arbitrary inner transformation: uninterpreted init/update functions."""
    def init(params):
      if not state: return ()
      return self._opaque_state(name + '.init', [params], params, special)

    def update(updates, st, params=None):
      args = [updates, st] + ([params] if params is not None else [])
      tag = name + ('.upd' if params is not None else '.updnp')
      new_u = self.uf(tag + '.u', args, updates, special)
      new_s = self.uf(tag + '.s', args, st, special) if state else ()
      return new_u, new_s
    return optax.GradientTransformation(init, update)

  def _opaque_state(self, tag, args, params, special):
    like = {'m': params, 'k': jax.ShapeDtypeStruct((), jnp.int32)}
    return self.uf(tag, args, like, special)

  def opaque_fn(self, name, args, like, special=False):
    return self.uf(name, args, like, special)


class SymCtx(Ctx):
  symbolic = True

  def __init__(self, variant, prefix):
    super().__init__(variant)
    self.prefix = list(prefix)
    self.taken = []
    self.conds = []
    self.outat = []       # number of outputs recorded before each decision
    self.outs = []        # (kind, name, [arrays])
    self.main = None
    self.names = set()
    self.structural = []  # (name, ok, msg)
    self.dims = {}

  def decide(self, tr):
    for d, val in zip(self.conds, self.taken):
      if d is tr: return val
    n = len(self.taken)
    val = self.prefix[n] if n < len(self.prefix) else True
    if n > 40: raise Unsupported('too many branches')
    self.taken.append(val); self.conds.append(tr); self.outat.append(len(self.outs))
    return val

  def dim(self, d):
    if not isinstance(d, str): return d
    if self.v.get('ones'): return 1
    if d not in self.dims:
      self.dims[d] = sp._parse_spec(d, (None,))[0]
    return self.dims[d]

  def sym(self, name, shape, dtype, weak=False, rng=None, fact=None, special=False):
    base = name
    n = 0
    while name in self.names:
      n += 1; name = '%s~%d' % (base, n)
    self.names.add(name)
    sh = tuple(self.dim(d) for d in shape)
    av = core.ShapedArray(sh, np.dtype(jnp.dtype(dtype)) if not isinstance(dtype, np.dtype) else dtype, weak_type=weak)
    r = sym_p.bind(name=name, aval=_Id(av), rng=rng, fact=fact, special=special)
    if self.main is None: self.main = r._trace.main
    return r

  def array(self, name, shape, dtype=jnp.float32, nonneg=False, pos=False, special=False, nonzero=False, lo=None, hi=None):
    fact = (False, False, True) if pos else (False, True, True) if nonneg else (True, False, True) if nonzero else None
    rng = None
    if jnp.issubdtype(dtype, jnp.integer):
      info = np.iinfo(dtype)
      rng = (int(info.min) if lo is None else lo, int(info.max) if hi is None else hi)
    return self.sym(name, shape, dtype, rng=rng, fact=fact, special=special)

  def tree(self, name, like=None, **kw):
    like = self.T if like is None else like
    names = path_names(like)
    flat, tdef = jax.tree_util.tree_flatten(like, is_leaf=lambda x: isinstance(x, Leaf))
    out = []
    dtype = kw.pop('dtype', None)
    for nm, l in zip(names, flat):
      if isinstance(l, Leaf):
        out.append(self.array(name + nm, l.shape, dtype or l.dtype or jnp.float32, **kw))
      else:
        out.append(self.array(name + nm, l.shape, dtype or l.dtype, **kw))
    return jax.tree_util.tree_unflatten(tdef, out)

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, special=False, nonzero=False, gen=None):
    fact = None
    if lo is not None and lo >= 0: fact = (False, not (lo > 0 or lo_open), True)
    elif hi is not None and hi <= 0: fact = (True, not (hi < 0 or hi_open), False)
    elif nonzero: fact = (True, False, True)
    x = self.sym(name, (), jnp.float32, weak=True, fact=fact, special=special)
    if lo is not None: self.require(x > lo if lo_open else x >= lo)
    if hi is not None: self.require(x < hi if hi_open else x <= hi)
    return x

  def int(self, name, lo=None, hi=None, weak=True, gen=None):
    return self.sym(name, (), jnp.int32, weak=weak, rng=(-2**31 if lo is None else lo, 2**31 - 1 if hi is None else hi))

  def count(self, name, lo=0, hi=2**31 - 1):
    return self.sym(name, (), jnp.int32, rng=(lo, hi))

  def bool(self, name):
    return self.sym(name, (), jnp.bool_)

  def key(self, name):
    return self.sym(name, (2,), jnp.uint32, rng=(0, 2**32 - 1))

  def uf(self, name, args, like, special=False):
    flat = leaves(args)
    # the structure of the arguments is part of the function symbol
    tag = '%s<%s>' % (name, _seed_of(str(struct(args))))
    lk = leaves(like)
    avals = [core.ShapedArray(tuple(np.shape(x)) if not hasattr(x, 'shape') else tuple(x.shape), jnp.result_type(x) if not hasattr(x, 'dtype') else x.dtype) for x in lk]
    if not avals: return like
    outs = uf_p.bind(*flat, name=tag, avals=_Id(*avals), special=special)
    return jax.tree_util.tree_unflatten(struct(like), outs)

  def smooth(self, name): return Smooth(name)

  def require(self, cond):
    if isinstance(cond, (bool, np.bool_)):
      if not cond: raise Reject('precondition')
      return
    self.outs.append(('req', 'require', [cond]))

  def _eq(self, name, x, y): self.outs.append(('eq', name, [jnp.asarray(x), jnp.asarray(y)]))
  def _holds(self, name, x): self.outs.append(('bool', name, [x]))
  def _finite(self, name, x): self.outs.append(('fin', name, [x]))
  def ok(self, name): self.structural.append((name, True, ''))
  def fail(self, name, msg): self.structural.append((name, False, msg))
  def key_output(self, name, **kw): self.outs.append(('keys', name, [kw]))

  def fresh_keys(self, name, noises, new_key, old_key):
    """Key discipline: see Engine."""
    arrs = [jnp.asarray(x) for x in leaves(noises)]
    self.outs.append(('keys', name, arrs + [new_key, old_key]))


  def noise(self, name, got, base, scale, new_key, old_key):
    """got = base + scale * N leaf by leaf: N standard normal with fresh keys."""
    for n, (x, y) in enumerate(zip(leaves(got), leaves(base))):
      self.outs.append(('noise', '%s[%d]' % (name, n), [jnp.asarray(x), jnp.asarray(y), jnp.asarray(scale)]))
    self.fresh_keys(name + ' keys', got, new_key, old_key)


# standard normal draws made by the code in concrete runs (for the replay of noise obligations)
DRAWS = [None]
_orig_normal = jax.random.normal


def _normal(key, *a, **k):
  r = _orig_normal(key, *a, **k)
  if DRAWS[0] is not None and not isinstance(r, core.Tracer) and not isinstance(key, core.Tracer):
    DRAWS[0].append((np.asarray(key), np.asarray(r)))
  return r


jax.random.normal = _normal


class ConCtx(Ctx):
  """Concrete execution of the same body on the real code."""

  def __init__(self, variant, rng, x64=True, mode='rand', model=None):
    super().__init__(variant)
    self.rng = rng
    self.x64 = x64
    self.mode = mode
    self.model = model or {}
    self.dims = {}
    self.inputs = {}
    self.failures = []
    self.names = set()
    self.nobl = 0
    self.fdt = jnp.float64 if x64 else jnp.float32
    self.tol = 1e-6 if x64 else 2e-3
    self.slack = 1
    self.low = False       # a contract sets this where low-precision intermediate results are allowed

  def dim(self, d):
    if not isinstance(d, str): return d
    if self.v.get('ones'): return 1
    if d not in self.dims:
      v = self.model.get('dim_' + d)
      self.dims[d] = int(v) if v is not None and 1 <= v <= 6 else int(self.rng.integers(1, 5))
    return self.dims[d]

  def dt(self, dtype):
    if dtype is None: return self.fdt
    d = jnp.dtype(dtype)
    if d == jnp.float32: return self.fdt
    return d

  def _nm(self, name):
    base = name; n = 0
    while name in self.names:
      n += 1; name = '%s~%d' % (base, n)
    self.names.add(name)
    return name

  def array(self, name, shape, dtype=None, nonneg=False, pos=False, special=False, nonzero=False, lo=None, hi=None):
    name = self._nm(name)
    sh = tuple(self.dim(d) for d in shape)
    dt = self.dt(dtype)
    r = self.rng
    if jnp.issubdtype(dt, jnp.integer):
      info = np.iinfo(dt)
      l, h = (int(info.min) if lo is None else lo), (int(info.max) if hi is None else hi)
      small = r.random() < 0.6
      if small: l2, h2 = max(l, -5), min(h, 5)
      else: l2, h2 = l, h
      x = r.integers(l2, h2, size=sh, endpoint=True)
    elif jnp.dtype(dt) == jnp.bool_:
      x = r.random(sh) < 0.5
    else:
      style = r.integers(0, 6)
      x = r.normal(size=sh)
      if style == 1: x = x * 10.0 ** r.integers(-3, 4)
      elif style == 2: x = np.where(r.random(sh) < 0.4, 0.0, x)
      elif style == 3: x = np.round(x * 2) / 2
      elif style == 4 and r.random() < 0.4: x = np.zeros(sh)
      if pos: x = np.abs(x) + 1e-3
      elif nonneg: x = np.abs(x)
      elif nonzero: x = np.where(np.abs(x) < 1e-3, 0.5, x)
      if special:
        u = r.random(sh)
        p = r.choice([0.0, 0.1, 0.4])
        x = np.where(u < p, np.nan, np.where(u < 1.6 * p, np.inf, np.where(u < 2.2 * p, -np.inf, x)))
        if special == 'huge' and r.random() < 0.5:   # finite values whose sums and squares overflow
          big = float(jnp.finfo(dt).max) * 0.75
          x = np.where(u < p, x if r.random() < 0.5 else big, np.where(r.random(sh) < 0.5, big, np.where(r.random(sh) < 0.3, -big, x)))
      x = np.asarray(x)
    x = np.array(x)
    for idx, val in self.model.get(name, {}).items() if isinstance(self.model.get(name), dict) else ():
      if len(idx) == x.ndim and all(0 <= i < n for i, n in zip(idx, x.shape)): x[idx] = val
    out = jnp.asarray(x, dtype=dt)
    self.inputs[name] = out
    return out

  def tree(self, name, like=None, **kw):
    like = self.T if like is None else like
    names = path_names(like)
    flat, tdef = jax.tree_util.tree_flatten(like, is_leaf=lambda x: isinstance(x, Leaf))
    dtype = kw.pop('dtype', None)
    out = []
    for nm, l in zip(names, flat):
      out.append(self.array(name + nm, l.shape, dtype or l.dtype, **kw))
    return jax.tree_util.tree_unflatten(tdef, out)

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, special=False, nonzero=False, gen=None):
    name = self._nm(name)
    r = self.rng
    v = self.model.get(name)
    if v is None:
      if gen is not None: v = gen(r)
      elif lo is not None and hi is not None:
        u = r.random()
        v = lo + (hi - lo) * u
        q = r.random()
        if q < 0.1 and not lo_open: v = lo
        elif q < 0.2 and not hi_open: v = hi
        elif q < 0.3: v = lo + (hi - lo) * 0.9
        elif q < 0.45 and hi_open: v = hi - (hi - lo) * 10.0 ** -int(r.integers(2, 6))
      elif lo is not None:
        v = lo + abs(r.normal()) * 10.0 ** r.integers(-2, 2)
        if r.random() < 0.1 and not lo_open: v = lo
      elif hi is not None: v = hi - abs(r.normal())
      else:
        v = r.normal() * 10.0 ** r.integers(-2, 2)
        if r.random() < 0.1 and not nonzero: v = 0.0
      if special and r.random() < 0.3: v = float(r.choice([np.nan, np.inf, -np.inf]))
    v = float(v)
    self.inputs[name] = v
    return v

  def int(self, name, lo=None, hi=None, weak=True, gen=None):
    name = self._nm(name)
    r = self.rng
    l, h = (-2**31 if lo is None else lo), (2**31 - 1 if hi is None else hi)
    v = self.model.get(name)
    if v is None:
      if gen is not None: v = int(gen(r))
      else:
        q = r.random()
        if q < 0.75: v = int(r.integers(max(l, -6), min(h, 12), endpoint=True)) if max(l, -6) <= min(h, 12) else int(r.integers(l, h, endpoint=True))
        elif q < 0.85: v = h
        elif q < 0.9: v = l
        elif q < 0.95: v = int(min(h, max(l, 10 ** r.uniform(1, 7))))
        else: v = int(r.integers(l, h, endpoint=True))
    v = max(l, min(h, int(v)))
    self.inputs[name] = v
    return v if weak else jnp.asarray(v, jnp.int32)

  def count(self, name, lo=0, hi=2**31 - 1):
    return jnp.asarray(self.int(name, lo, hi), jnp.int32)

  def bool(self, name):
    name = self._nm(name)
    v = bool(self.model.get(name, self.rng.random() < 0.5))
    self.inputs[name] = v
    return jnp.asarray(v)

  def key(self, name):
    name = self._nm(name)
    v = jnp.asarray(self.rng.integers(0, 2**32, size=(2,), dtype=np.uint64).astype(np.uint32))
    self.inputs[name] = v
    return v

  def uf(self, name, args, like, special=False):
    flat = leaves(args)
    seed = _seed_of(name, str(struct(args)))
    d = jnp.asarray(0.0, self.fdt)
    for n, x in enumerate(flat):
      x = jnp.asarray(x)
      x = x.astype(self.fdt).reshape(-1)
      w = jnp.cos(jnp.arange(x.shape[0], dtype=self.fdt) * 1.7 + n * 2.3 + seed % 97)
      # NaN/Inf and huge arguments count, but do not swamp the others
      x = jnp.where(jnp.isnan(x), 3.3, jnp.where(jnp.isinf(x), jnp.sign(x) * 7.7, jnp.where(jnp.abs(x) > 1e3, jnp.sign(x) * (1e3 + jnp.log(jnp.abs(x) / 1e3)), x)))
      d = d + jnp.sum(x * w) * (0.31 + 0.07 * n)
    lk = leaves(like)
    outs = []
    for n, l in enumerate(lk):
      sh = np.shape(l) if not hasattr(l, 'shape') else l.shape
      dt = l.dtype if hasattr(l, 'dtype') else jnp.result_type(l)
      size = int(np.prod(sh)) if sh else 1
      base = jnp.sin(d * (1 + 0.1 * n) + jnp.arange(size, dtype=self.fdt) * 0.9 + seed % 89 + n)
      if jnp.issubdtype(dt, jnp.floating): y = base * 1.3
      elif jnp.dtype(dt) == jnp.bool_: y = base > 0
      elif jnp.dtype(dt) == jnp.uint32: y = jnp.floor((base + 1) * 2.0e9)
      else: y = jnp.floor(base * 50)
      if special and jnp.issubdtype(dt, jnp.floating):
        y = jnp.where(base > 0.85, jnp.nan, jnp.where(base > 0.7, jnp.inf, y))
      outs.append(y.reshape(sh).astype(dt))
    return jax.tree_util.tree_unflatten(struct(like), outs)

  def smooth(self, name): return ConSmooth(name, self.fdt)

  def require(self, cond):
    if not bool(np.all(np.asarray(cond))): raise Reject('precondition')

  def _show(self, x):
    s = np.array2string(np.asarray(x, dtype=None), threshold=8)
    return s if len(s) < 200 else s[:200] + '...'

  def _eq(self, name, x, y):
    self.nobl += 1
    a, b = np.asarray(x), np.asarray(y)
    if a.dtype.name == 'bfloat16': a = a.astype(np.float32)
    if b.dtype.name == 'bfloat16': b = b.astype(np.float32)
    if a.dtype.kind in 'fc':
      low = self.low or str(np.asarray(x).dtype) in ('float16', 'bfloat16')
      rt = 2e-2 if low else self.tol
      if str(np.asarray(x).dtype) == 'float32' and self.x64: rt = 1e-4
      rt *= self.slack
      with np.errstate(all='ignore'):
        ok = np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=rt, atol=rt * (1e-3 if not low else 1), equal_nan=True)
    else: ok = np.array_equal(a, b)
    if not ok: self.failures.append((name, 'got %s, expected %s' % (self._show(a), self._show(b))))

  def _holds(self, name, x):
    self.nobl += 1
    if not bool(np.all(np.asarray(x))): self.failures.append((name, 'false: %s' % self._show(x)))

  def _finite(self, name, x):
    self.nobl += 1
    if not bool(np.all(np.isfinite(np.asarray(x, dtype=np.float64)))): self.failures.append((name, 'not finite: %s' % self._show(x)))

  def ok(self, name): self.nobl += 1
  def fail(self, name, msg): self.nobl += 1; self.failures.append((name, msg))

  def fresh_keys(self, name, noises, new_key, old_key): self.nobl += 1

  def noise(self, name, got, base, scale, new_key, old_key):
    sc = float(scale)
    new, old = np.asarray(new_key), np.asarray(old_key)
    self.nobl += 1
    if np.array_equal(new, old): self.failures.append((name + ' keys', 'the key is not renewed')); return
    L = list(zip(leaves(got), leaves(base)))
    used = {}
    for n, (x, y) in enumerate(L):
      self.nobl += 1
      a, b = np.asarray(x, np.float64), np.asarray(y, np.float64)
      mag = np.max(np.abs(b), initial=0.0)
      if a.shape != b.shape: self.failures.append((name, 'leaf %d shape %s' % (n, a.shape))); return
      if sc == 0 or not a.size:
        if not np.allclose(a, b, rtol=1e-6): self.failures.append((name, 'leaf %d: got %s, expected %s' % (n, a, b)))
        continue
      if sc < 1e-6 * mag: continue
      N = (a - b) / sc
      tol = 1e-5 + 1e-9 * mag / sc
      def near(d): return d.size == N.size and np.allclose(np.ravel(d), np.ravel(N), rtol=1e-5, atol=tol)
      key = None
      cands = list(DRAWS[0] or ())
      for m in range(len(L) + 1, len(L) + 4):
        for k in np.asarray(jax.random.split(old_key, m)):
          cands.append((k, np.asarray(_orig_normal(jnp.asarray(k), a.shape, x.dtype))))
      for k, d in cands + [(old, np.asarray(_orig_normal(old_key, a.shape, x.dtype))), (new, np.asarray(_orig_normal(new_key, a.shape, x.dtype)))]:
        if near(np.asarray(d, np.float64)):   # two draws may agree by accident: prefer one not yet used
          if key is None or key in used: key = tuple(np.ravel(k))
          if key not in used: break
      if key is None: self.failures.append((name, 'leaf %d: noise %s is no standard normal draw of the call' % (n, self._show(N)))); continue
      if key == tuple(new) or key == tuple(old): self.failures.append((name + ' keys', 'leaf %d uses the old or the new key' % n))
      if key in used: self.failures.append((name + ' keys', 'leaves %d and %d share a key' % (used[key], n)))
      used[key] = n


# ------------------------------------------------------------------ tracing
class Path:
  def __init__(self, ctx, closed, err):
    self.ctx = ctx; self.closed = closed; self.err = err


def trace_once(body, variant, prefix):
  ctx = SymCtx(variant, prefix)
  err = []

  def run():
    # establish the outer trace
    ctx.main = jnp.sin(sym_p.bind(name='!probe', aval=_Id(core.ShapedArray((), np.dtype('float32'))), rng=None, fact=None, special=False))._trace.main
    try:
      body(ctx)
    except (Reject, Skip) as e:
      err.append(e)
    except Exception as e:  # recorded as an obligation of the path
      err.append(e)
      e._tb = traceback.format_exc()
    outs = []
    for k, n, arrs in ctx.outs: outs += arrs
    return outs + list(ctx.conds)

  old = CUR[0]
  CUR[0] = ctx
  try:
    closed = jax.make_jaxpr(run)()
  finally:
    CUR[0] = old
  return Path(ctx, closed, err[0] if err else None)


# ------------------------------------------------------------------ registry
class Contract:
  def __init__(self, name, body, targets, variants, doc, while_hook=None, samples=None, opts=None):
    self.name = name; self.body = body; self.targets = targets
    self.variants = variants; self.doc = doc; self.while_hook = while_hook
    self.samples = samples
    self.opts = opts or {}


REG = []


def contract(name, targets, variants=None, trees=None, while_hook=None, samples=None, **opts):
  """Registers a contract.  `trees` crosses the variants with tree structures."""
  def deco(f):
    vs = variants or [{}]
    if trees:
      vs = [dict(v, tree=tr) for v in vs for tr in trees]
    if opts.get('ones', True):
      # dimensions of size 1 (comparisons of symbolic dimensions with constants are false in the trace)
      pick = [v for v in vs if v.get('tree') in ('ranks', 'nest')][:1] or vs[:1]
      vs = vs + [dict(v, ones=True) for v in pick]
    REG.append(Contract(name, f, targets, vs, (f.__doc__ or '').strip(), while_hook, samples, opts))
    return f
  return deco


def cross(**kw):
  keys = list(kw)
  return [dict(zip(keys, vals)) for vals in itertools.product(*[kw[k] for k in keys])]
