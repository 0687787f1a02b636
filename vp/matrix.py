"""Abstract interpretation of n x n matrix code over one symmetric matrix A.

Every matrix value is an element of the commutative algebra generated by A and I, given by its
eigenvalue as a function of A's eigenvalue (a ring homomorphism: products of such matrices are
products of eigenvalues, and two such matrices are equal when the eigenvalues are, for every
eigenvalue of A).  Operations that leave the algebra (elementwise products, unless summed to a
norm) are not supported.  Loops are decided by invariants: candidates over the loop's carries,
of which the largest inductive subset is kept (every kept one is proved to hold initially and
to be preserved)."""
from fractions import Fraction
import itertools
import time

import jax
import numpy as np
import z3
from jax import core

from .interp import Unsupported, CALL_PRIMS

TRACE = False
R, Z, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
IP = z3.Function('ip', R, Z, R)       # natural power
PW = z3.Function('pw', R, R, R)       # real power of a positive base


class Mat:
  """c(A): eigenvalue expression."""
  def __init__(self, e): self.e = e


class Bc:
  """All entries equal to a scalar."""
  def __init__(self, e): self.e = e


class Iota:
  def __init__(self, dim, off=0): self.dim = dim; self.off = off


class EyeMask: pass


class AbsM:
  def __init__(self, e): self.e = e


class Had:
  """Elementwise product of two matrices (only its sum is used)."""
  def __init__(self, a, b): self.a = a; self.b = b


def isnum(x): return isinstance(x, z3.ExprRef)


def num(c):
  c = c.item() if hasattr(c, 'item') else c
  if isinstance(c, bool): return z3.BoolVal(c)
  if isinstance(c, int): return z3.IntVal(c)
  f = Fraction(float(c))
  return z3.RealVal(f)


def real(x):
  if x.sort() == Z: return z3.ToReal(x)
  if x.sort() == B: return z3.If(x, z3.RealVal(1), z3.RealVal(0))
  return x


def integer(x):
  if x.sort() == B: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
  return x


_SY = {}


def syms(fs):
  """Names of the constants in formulas."""
  out = set()
  for f in fs:
    k = f.get_id()
    if k not in _SY or not _SY[k][0].eq(f):
      st, seen, r = [f], set(), set()
      while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
      _SY[k] = (f, frozenset(r))
    out |= _SY[k][1]
  return out


def _bools(f):
  st, seen, r = [f], set(), set()
  while st:
    x = st.pop()
    if x.get_id() in seen: continue
    seen.add(x.get_id()); st.extend(x.children())
    if z3.is_const(x) and x.sort() == B and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
  return r


_SI = {}


def simp(f):
  k = f.get_id()
  if k not in _SI or not _SI[k][0].eq(f): _SI[k] = (f, z3.simplify(f))
  return _SI[k][1]


class World:
  """Facts, and the maximal-deviation symbols."""

  def __init__(self, deadline=None):
    self.facts = []          # hold for every eigenvalue
    self.E = []              # (argument, scalar)
    self.n = 0
    self.ufs = {}
    self.templates = []      # (power, base) pairs from the goal
    self.kept = []
    self.queries = 0
    self.mats = {}
    self.eqc = {}

  def fresh(self, sort, hint='v'):
    self.n += 1
    return z3.Const('%s!%d' % (hint, self.n), sort)

  def maxabs(self, e):
    e = simp(e)
    for a, s in self.E:
      if a.eq(e): return s
    s = self.fresh(R, 'maxabs')
    self.E.append((e, s)); self.facts.append(s >= 0)
    return s

  # -- proving
  def lemmas(self, fs):
    """Ground lemmas about the powers in the formulas."""
    out, seen, todo = [], set(), list(fs)
    ips, done = {}, set()
    for _ in range(6):
      new = []
      for f in todo:
        st = [f]
        while st:
          x = st.pop()
          if x.get_id() in seen: continue
          seen.add(x.get_id()); done.add(x)
          st.extend(x.children())
          if z3.is_app(x) and x.decl().eq(IP): ips[x.get_id()] = x; new.append(self.ip_lemma(x))
          elif z3.is_app(x) and x.decl().eq(PW): new.append(z3.Implies(x.arg(0) > 0, x > 0))
      new = [y for y in new if y is not None]
      out += new
      byb = {}
      for x in ips.values(): byb.setdefault(x.arg(0).get_id(), []).append(x)
      for l in byb.values():
        for x, y in itertools.permutations(l, 2):
          k = (x.get_id(), y.get_id())
          if k in done: continue
          done.add(k)
          b, n, m = x.arg(0), x.arg(1), y.arg(1)
          new.append(z3.And(z3.Implies(n == m, x == y), z3.Implies(z3.And(m >= 0, n == 2 * m), x == y * y),
                            z3.Implies(z3.And(m >= 0, n == 2 * m + 1), x == b * y * y), z3.Implies(z3.And(m >= 0, n == m + 1), x == b * y)))
          out.append(new[-1])
      if not new: break
      todo = new
    return out

  def ip_lemma(self, x):
    b, n = x.arg(0), x.arg(1)
    ls = [z3.Implies(n == 0, x == 1), z3.Implies(n == 1, x == b), z3.Implies(z3.And(b > 0, n >= 0), x > 0)]
    if z3.is_int_value(n) and 0 <= n.as_long() <= 24:
      v = z3.RealVal(1)
      for _ in range(n.as_long()): v = v * b
      return x == v
    if z3.is_mul(b):
      v = z3.RealVal(1)
      for c in b.children(): v = v * (IP(c, n))
      ls.append(x == v)
    if z3.is_div(b): ls.append(z3.Implies(b.arg(1) != 0, x * IP(b.arg(1), n) == IP(b.arg(0), n)))
    if z3.is_rational_value(b) and b.as_fraction() == 1: ls.append(x == 1)
    if z3.is_app(b) and b.decl().eq(PW): ls.append(z3.Implies(z3.And(b.arg(0) > 0, b.arg(1) * z3.ToReal(n) == 1), x == b.arg(0)))
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE: ls.append(x == z3.If(b.arg(0), IP(b.arg(1), n), IP(b.arg(2), n)))
    return z3.And(*ls)

  def purify(self, fs):
    """Powers as constants (congruence is in the lemmas only for identical terms)."""
    mp = {}
    def walk(x):
      st = [x]
      seen = set()
      while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y) and (y.decl().eq(IP) or y.decl().eq(PW)): mp[y.get_id()] = y
        st.extend(y.children())
    for f in fs: walk(f)
    # outermost first
    items = sorted(mp.values(), key=lambda y: -len(y.sexpr()))
    sub = [(y, z3.Real('q!%d' % y.get_id())) for y in items]
    out = list(fs)
    for s in sub: out = [z3.substitute(f, s) for f in out]
    return out

  def prove(self, assum, goal, equate=True, ms=8000):
    self.queries += 1
    t0 = time.time()
    r = self._prove(assum, goal, equate, ms)
    if TRACE: print('%6.2f %s %s' % (time.time() - t0, r, str(goal)[:120].replace(chr(10), ' ')), flush=True)
    return r

  def _prove(self, assum, goal, equate, ms):
    goal = z3.simplify(goal)
    if z3.is_true(goal): return True
    eqs = self.equalities(assum, goal) if equate else []
    known = syms([goal] + list(assum))
    near = [f for f in self.facts if syms([f]) <= known]
    r = None
    for n, facts in enumerate((near, self.facts)):
      if n and len(near) == len(self.facts): break
      r = self.solve(facts + list(assum) + eqs, goal, ms if n else ms // 2)
      if r: return True
    return r

  def prove_split(self, assum, goal, bools=None):
    """Case split on the flags in the goal."""
    if bools is None:
      names = sorted(n for n in syms([goal]))
      bools = [z3.Bool(n) for n in names if n in {d for d in _bools(goal)}][:4]
    if not bools: return self.prove(assum, goal)
    for v in (True, False):
      g = z3.simplify(z3.substitute(goal, (bools[0], z3.BoolVal(v))))
      # deviation symbols of arguments that mention the flag
      E = []
      for a, s_ in list(self.E):
        a2 = z3.simplify(z3.substitute(a, (bools[0], z3.BoolVal(v))))
        if not a2.eq(z3.simplify(a)):
          lit = bools[0] if v else z3.Not(bools[0])
          self.facts.append(z3.Implies(lit, s_ == self.maxabs(a2)))
          g = z3.substitute(g, (s_, self.maxabs(a2)))
      r = self.prove_split(list(assum) + [bools[0] if v else z3.Not(bools[0])], g, bools[1:])
      if r is not True: return r
    return True

  def solve(self, facts, goal, ms):
    fs = [simp(f) for f in list(facts) + [z3.Not(goal)]]
    fs = self.purify(fs + self.lemmas(fs))
    fs = [z3.simplify(f) for f in fs]
    r = None
    for tac in (None, 'nl'):
      s = z3.Solver() if tac is None else z3.Then('simplify', 'solve-eqs', 'smt').solver()
      s.set('timeout', ms if tac else ms // 3)
      s.add(fs)
      r = s.check()
      if r == z3.unsat: return True
      if r == z3.sat: return False
    return None

  def equalities(self, assum, goal):
    """Deviation symbols of matrices that are equal at every eigenvalue."""
    used = syms([goal])
    mine = [(a, s) for a, s in self.E if s.decl().name() in used]
    if not mine: return []
    near = syms(list(assum)) | used
    for f in self.facts:
      if len(syms([f])) <= 24 and any(x in used for x in syms([f]) if not x.startswith('in_')): near |= {x for x in syms([f]) if x.startswith('maxabs')}
    live = [(a, s) for a, s in self.E if s.decl().name() in near]
    out = []
    for a, s in mine:
      for b, u in live:
        if s.eq(u): continue
        if self.prove_eq(list(assum), a, b): out.append(s == u)
    return out

  def prove_eq(self, base, a, b):
    if z3.simplify(a - b).eq(z3.RealVal(0)): return True
    key = (tuple(f.get_id() for f in base), len(self.facts), frozenset((a.get_id(), b.get_id())))
    if key not in self.eqc: self.eqc[key] = (self.prove(base, a == b, equate=False, ms=2500) is True, base)
    return self.eqc[key][0]


class MInterp:
  def __init__(self, world):
    self.w = world
    self.path = []     # scalar conditions that hold where we are

  def const(self, c):
    a = np.asarray(c)
    if a.shape == (): return num(a)
    if a.ndim == 2 and a.size and (a == a.flat[0]).all(): return Bc(num(a.flat[0]))
    raise Unsupported('matrix constant')

  def fact(self, f):
    """A fact that holds where we are."""
    self.w.facts.append(z3.Implies(z3.And(*self.path), f) if self.path else f)

  def run(self, closed, args=()): return self.eval(closed.jaxpr, closed.consts, args)

  def eval(self, jaxpr, consts, args):
    env = {}
    def read(v): return self.const(v.val) if isinstance(v, core.Literal) else env[v]
    for v, c in zip(jaxpr.constvars, consts): env[v] = c if not isinstance(c, (np.ndarray, jax.Array, int, float)) else self.const(c)
    for v, a in zip(jaxpr.invars, args): env[v] = a
    live = set()
    eqns = []
    for v in jaxpr.outvars:
      if not isinstance(v, core.Literal): live.add(v)
    for e in reversed(jaxpr.eqns):
      if any(v in live for v in e.outvars):
        eqns.append(e); live.update(v for v in e.invars if not isinstance(v, core.Literal))
    for e in reversed(eqns):
      outs = self.eqn(e, [read(v) for v in e.invars])
      for v, o in zip(e.outvars, outs): env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, eqn, ins):
    nm, p = eqn.primitive.name, eqn.params
    if nm in CALL_PRIMS and CALL_PRIMS[nm] in p:
      j = p[CALL_PRIMS[nm]]
      return self.eval(j.jaxpr, j.consts, ins) if isinstance(j, core.ClosedJaxpr) else self.eval(j, [], ins)
    f = getattr(self, 'p_' + nm, None)
    if f is None: raise Unsupported('matrix %s' % nm)
    r = f(eqn, ins, p)
    return r if isinstance(r, list) else [r]

  # -- inputs
  def p_vp_sym(self, eqn, ins, p):
    nm, av = p['name'], eqn.outvars[0].aval
    w = self.w
    if len(av.shape) == 2:
      if nm not in w.mats:
        w.mats[nm] = z3.Real('lam_' + nm)
        if len(w.mats) > 1: raise Unsupported('two matrices')
      return Mat(w.mats[nm])
    if av.shape: raise Unsupported('array input')
    k = np.dtype(av.dtype).kind
    c = z3.Const('in_' + nm, R if k == 'f' else (Z if k in 'iu' else B))
    if p.get('rng'):
      lo, hi = p['rng']
      for f in (c >= lo, c <= hi):
        if not any(f.eq(g) for g in w.facts): w.facts.append(f)
    return c

  def p_vp_uf(self, eqn, ins, p):
    out = []
    for n, v in enumerate(eqn.outvars):
      if v.aval.shape: raise Unsupported('array-valued function')
      key = (p['name'], n) + tuple(x.e.sexpr() if not isnum(x) else x.sexpr() for x in ins)
      out.append(self.w.ufs.setdefault(key, self.w.fresh(R, 'uf')))
    return out

  # -- arithmetic
  def arith(self, ins, f, kind):
    a, b = ins
    t = (Mat, Bc)
    if isnum(a) and isnum(b):
      if a.sort() != b.sort(): a, b = (real(a), real(b)) if R in (a.sort(), b.sort()) else (integer(a), integer(b))
      r = f(a, b)
      return z3.simplify(r) if r.sort() == Z else r
    if isinstance(a, Iota) or isinstance(b, Iota):
      i, c = (a, b) if isinstance(a, Iota) else (b, a)
      c = c.e if isinstance(c, Bc) else c
      if kind in ('add', 'sub') and isnum(c) and z3.is_int_value(c) and c.as_long() == 0: return i
      raise Unsupported('index arithmetic')
    if kind in ('add', 'sub'):
      if isinstance(a, Mat) and isinstance(b, Mat): return Mat(f(a.e, b.e))
      if isinstance(a, Bc) and isinstance(b, Bc): return Bc(f(a.e, b.e))
      z = lambda x: (isnum(x) or isinstance(x, Bc)) and z3.is_rational_value(z3.simplify(x if isnum(x) else x.e)) and z3.simplify(x if isnum(x) else x.e).as_fraction() == 0
      if isinstance(a, Mat) and z(b): return a
      if isinstance(b, Mat) and z(a) and kind == 'add': return b
    if kind == 'mul':
      if isinstance(a, Mat) and isinstance(b, Mat): return Had(a.e, b.e)
      for x, y in ((a, b), (b, a)):
        if isinstance(x, Mat) and (isnum(y) or isinstance(y, Bc)): return Mat(f(real(y if isnum(y) else y.e), x.e))
        if isinstance(x, Bc) and (isnum(y) or isinstance(y, Bc)): return Bc(f(x.e, y if isnum(y) else y.e))
    if kind == 'div':
      if isinstance(a, (Mat, Bc)) and (isnum(b) or isinstance(b, Bc)): return type(a)(f(a.e, b if isnum(b) else b.e))
    raise Unsupported('matrix %s of %s and %s' % (kind, type(a).__name__, type(b).__name__))

  def p_add(self, e, ins, p): return self.arith(ins, lambda a, b: a + b, 'add')
  def p_sub(self, e, ins, p): return self.arith(ins, lambda a, b: a - b, 'sub')
  def p_mul(self, e, ins, p): return self.arith(ins, lambda a, b: a * b, 'mul')
  p_add_any = p_add

  def p_div(self, e, ins, p):
    if all(isnum(x) and x.sort() == Z for x in ins):
      a, b = ins
      q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
      return z3.simplify(z3.If((a >= 0) == (b >= 0), q, -q))
    return self.arith(ins, lambda a, b: a / b, 'div')

  def p_rem(self, e, ins, p):
    a, b = ins
    if not (isnum(a) and a.sort() == Z): raise Unsupported('rem')
    r = z3.If(a >= 0, a, -a) % z3.If(b >= 0, b, -b)
    return z3.simplify(z3.If(a >= 0, r, -r))

  def scal(self, ins, f):
    if not all(isnum(x) for x in ins): raise Unsupported('scalar operation on matrices')
    r = f(*ins)
    return z3.simplify(r) if r.sort() == Z else r

  def p_neg(self, e, ins, p):
    a, = ins
    if isinstance(a, (Mat, Bc)): return type(a)(-a.e)
    return self.scal(ins, lambda a: -a)

  def p_sign(self, e, ins, p):
    return self.scal(ins, lambda a: z3.If(a > 0, num(1), z3.If(a < 0, num(-1), num(0))) if a.sort() == Z else z3.If(a > 0, num(1.), z3.If(a < 0, num(-1.), num(0.))))

  def p_max(self, e, ins, p): return self.scal(ins, lambda a, b: z3.If(a >= b, a, b))
  def p_min(self, e, ins, p): return self.scal(ins, lambda a, b: z3.If(a <= b, a, b))
  def p_gt(self, e, ins, p): return self.scal(ins, lambda a, b: a > b)
  def p_lt(self, e, ins, p): return self.scal(ins, lambda a, b: a < b)
  def p_ge(self, e, ins, p): return self.scal(ins, lambda a, b: a >= b)
  def p_le(self, e, ins, p): return self.scal(ins, lambda a, b: a <= b)

  def p_eq(self, e, ins, p):
    a, b = ins
    if isinstance(a, Iota) and isinstance(b, Iota): return EyeMask() if a.dim != b.dim else Bc(z3.BoolVal(True))
    return self.scal(ins, lambda a, b: a == b)

  def p_ne(self, e, ins, p): return self.scal(ins, lambda a, b: a != b)

  def bits(self, ins, fb, what):
    if not all(isnum(x) and x.sort() == B for x in ins): raise Unsupported('bit operation')
    return fb(*ins)

  def p_and(self, e, ins, p): return self.bits(ins, z3.And, 'and')
  def p_or(self, e, ins, p): return self.bits(ins, z3.Or, 'or')
  def p_not(self, e, ins, p): return self.bits(ins, z3.Not, 'not')

  def p_abs(self, e, ins, p):
    a, = ins
    if isinstance(a, Mat): return AbsM(a.e)
    return self.scal(ins, lambda a: z3.If(a >= 0, a, -a))

  def p_integer_pow(self, e, ins, p):
    a, = ins; y = p['y']
    if isinstance(a, Mat):
      if y == 1: return a
      if y == 2: return Had(a.e, a.e)
      raise Unsupported('elementwise power of a matrix')
    a = self.scal(ins, lambda a: a)
    r = num(1.) if a.sort() == R else num(1)
    for _ in range(abs(y)): r = r * a
    return r if y >= 0 else 1 / real(r)

  def p_square(self, e, ins, p):
    a, = ins
    return Had(a.e, a.e) if isinstance(a, Mat) else self.scal(ins, lambda a: a * a)

  def p_pow(self, e, ins, p):
    a, b = ins
    if not (isnum(a) and isnum(b)): raise Unsupported('matrix pow')
    if b.sort() == Z: return IP(real(a), b)
    return PW(real(a), real(b))

  def p_sqrt(self, e, ins, p):
    a = self.scal(ins, lambda a: a)
    key = ('sqrt', a.sexpr())
    if key not in self.w.ufs:
      s = self.w.fresh(R, 'sqrt')
      self.w.ufs[key] = s
      self.w.facts += [z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)), z3.Implies(a > 0, s > 0)]
    return self.w.ufs[key]

  def p_is_finite(self, e, ins, p):
    return self.scal(ins, lambda a: z3.BoolVal(True))

  # -- shapes
  def p_iota(self, e, ins, p): return Iota(p['dimension'])

  def p_broadcast_in_dim(self, e, ins, p):
    a, = ins[:1]
    n = len(p['shape'])
    if isnum(a): return a if n == 0 else Bc(a)
    if isinstance(a, Iota) and n == 2 and len(p['broadcast_dimensions']) == 1: return Iota(p['broadcast_dimensions'][0])
    if n == 2 and tuple(p['broadcast_dimensions']) == (0, 1): return a
    raise Unsupported('broadcast of a matrix')

  def p_transpose(self, e, ins, p):
    a, = ins
    if isinstance(a, (Mat, Bc, EyeMask, AbsM)): return a     # symmetric
    raise Unsupported('transpose')

  def p_convert_element_type(self, e, ins, p):
    a, = ins
    k = np.dtype(p['new_dtype']).kind
    if isinstance(a, EyeMask): return Mat(num(1.)) if k == 'f' else a
    if isinstance(a, Bc): return Bc(self.conv(a.e, k))
    if isnum(a): return self.conv(a, k)
    if isinstance(a, (Mat, Iota)) and k in 'fiu': return a
    raise Unsupported('conversion')

  def conv(self, a, k):
    if k == 'f': return real(a)
    if k in 'iu':
      if a.sort() == R: raise Unsupported('float to int')
      return integer(a)
    return a if a.sort() == B else a != 0

  def p_copy(self, e, ins, p): return ins[0]
  p_stop_gradient = p_copy

  def p_squeeze(self, e, ins, p):
    if isnum(ins[0]): return ins[0]
    raise Unsupported('squeeze')

  def p_reshape(self, e, ins, p):
    if isnum(ins[0]) and not p['new_sizes']: return ins[0]
    raise Unsupported('reshape')

  def p_select_n(self, e, ins, p):
    c, *bs = ins
    if isnum(c) and len(bs) == 2:
      c = c if c.sort() == B else c != 0
      if all(isnum(b) for b in bs): return z3.simplify(z3.If(c, bs[1], bs[0])) if bs[0].sort() == Z else z3.If(c, bs[1], bs[0])
      if all(isinstance(b, Mat) for b in bs): return Mat(z3.If(c, bs[1].e, bs[0].e))
      if all(isinstance(b, Bc) for b in bs): return Bc(z3.If(c, bs[1].e, bs[0].e))
    if isinstance(c, Bc) and all(isinstance(b, Mat) for b in bs): return Mat(z3.If(c.e, bs[1].e, bs[0].e))
    if isinstance(c, EyeMask) and isinstance(bs[1], (Bc, )) and isinstance(bs[0], Bc) and z3.simplify(bs[0].e).eq(num(0.)): return Mat(bs[1].e)
    raise Unsupported('select')

  # -- products and reductions
  def p_dot_general(self, e, ins, p):
    a, b = ins
    (lc, rc), (lb, rb) = p['dimension_numbers']
    if isinstance(a, Mat) and isinstance(b, Mat) and len(lc) == 1 and not lb: return Mat(a.e * b.e)
    if isinstance(a, Mat) and isinstance(b, Mat) and len(lc) == 2 and not lb: return self.sum_had(a.e, b.e)
    raise Unsupported('dot_general')

  def sum_had(self, a, b):
    key = ('had', a.sexpr(), b.sexpr())
    if key not in self.w.ufs:
      s = self.w.fresh(R, 'frob')
      self.w.ufs[key] = s
      if a.eq(b):
        self.w.facts.append(s >= 0)
        # a matrix with a nonzero eigenvalue is not the zero matrix
        if self.w.prove(self.path, a != 0, equate=False) is True: self.fact(s > 0)
    return self.w.ufs[key]

  def p_reduce_sum(self, e, ins, p):
    a, = ins
    if isinstance(a, Had) and len(p['axes']) == 2: return self.sum_had(a.a, a.b)
    raise Unsupported('matrix sum')

  def p_reduce_max(self, e, ins, p):
    a, = ins
    if isinstance(a, AbsM) and len(p['axes']) == 2: return self.w.maxabs(a.e)
    raise Unsupported('matrix max')

  # -- control
  def join(self, c, x, y):
    if isnum(x) and isnum(y): return z3.If(c, x, y)
    if type(x) is type(y) and isinstance(x, (Mat, Bc)): return type(x)(z3.If(c, x.e, y.e))
    raise Unsupported('join')

  def p_cond(self, e, ins, p):
    ix, ops = ins[0], ins[1:]
    brs = p['branches']
    if len(brs) != 2: raise Unsupported('switch')
    c = ix if ix.sort() == B else ix > 0
    outs = []
    for n, j in enumerate(brs):
      lit = c if n == 1 else z3.Not(c)
      self.path.append(lit)
      try: outs.append(self.eval(j.jaxpr, j.consts, ops))
      finally: self.path.pop()
    return [self.join(c, y, x) for x, y in zip(*outs)]

  def p_scan(self, e, ins, p):
    """A scan without arrays is a counted loop."""
    nc, k = p['num_consts'], p['num_carry']
    if len(ins) != nc + k or len(e.outvars) != k: raise Unsupported('scan over arrays')
    j = p['jaxpr']
    cond = lambda cr: cr[0] < num(int(p['length']))
    body = lambda cr: [cr[0] + 1] + self.eval(j.jaxpr, j.consts, ins[:nc] + cr[1:])
    return self.loop(cond, body, [num(0)] + list(ins[nc:]), list(ins[:nc]))[1:]

  def p_while(self, e, ins, p):
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    cj, bj = p['cond_jaxpr'], p['body_jaxpr']
    cc, bc, init = ins[:nc], ins[nc:nc + nb], list(ins[nc + nb:])
    cond = lambda cr: self.eval(cj.jaxpr, cj.consts, cc + cr)[0]
    body = lambda cr: self.eval(bj.jaxpr, bj.consts, bc + cr)
    return self.loop(cond, body, init, bc)

  def havoc(self, v):
    if isinstance(v, Mat): return Mat(self.w.fresh(R, 'M'))
    if isinstance(v, Bc): return Bc(self.w.fresh(v.e.sort(), 'b'))
    if isnum(v): return self.w.fresh(v.sort(), {R: 'r', Z: 'i', B: 'f'}[v.sort()] if False else 'c')
    raise Unsupported('loop over %s' % type(v).__name__)

  def candidates(self, init, consts):
    """Invariant templates: functions from a carry state to a formula."""
    w = self.w
    ix = range(len(init))
    mats = [i for i in ix if isinstance(init[i], Mat)]
    ints = [i for i in ix if isnum(init[i]) and init[i].sort() == Z]
    reals = [i for i in ix if isnum(init[i]) and init[i].sort() == R]
    bools = [i for i in ix if isnum(init[i]) and init[i].sort() == B]
    one = num(1.)
    out = []
    for i in ints:
      out.append(lambda s, i=i: s[i] >= 0)
      out.append(lambda s, i=i: s[i] <= init[i])
      out.append(lambda s, i=i: s[i] >= init[i])
    for P, L in w.templates:
      for i, j in itertools.permutations(mats, 2):
        out.append(lambda s, i=i, j=j, P=P, L=L: s[i].e == IP(s[j].e, P) * L)
        for b in bools:
          # stopped by the flag: the residual of one root is at most the deviation of the matrix
          out.append(lambda s, i=i, j=j, b=b, P=P, L=L: z3.Or(s[b], w.maxabs(IP(s[j].e, P) * L - 1) <= w.maxabs(s[i].e - 1)))
    for i in mats:
      for r in reals: out.append(lambda s, i=i, r=r: s[r] == w.maxabs(s[i].e - 1))
    bases = [c.e for c in list(init) + list(consts) if isinstance(c, Mat)]
    for n in ints:
      for i in mats:
        for j in mats:
          if i == j: continue
          out.append(lambda s, n=n, i=i, j=j: s[i].e * IP(s[j].e, s[n]) == init[i].e * IP(init[j].e, init[n]))
        for b in bases:
          out.append(lambda s, n=n, i=i, b=b: s[i].e * IP(b, s[n]) == init[i].e * IP(b, init[n]))
          out.append(lambda s, n=n, i=i, b=b: s[i].e == init[i].e * IP(b, s[n] - init[n]))
    return out

  def loop(self, cond, body, init, consts):
    w = self.w
    # a loop that ends by constants is unrolled
    st = list(init)
    for _ in range(40):
      c = z3.simplify(cond(st))
      if z3.is_false(c): return st
      if not z3.is_true(c): break
      st = body(st)
      if not all(isnum(x) and (z3.is_int_value(z3.simplify(x)) or z3.is_true(x) or z3.is_false(x)) for x, i in zip(st, init) if isnum(i) and i.sort() == Z and z3.is_int_value(i)): break
    S = [self.havoc(v) for v in init]
    cands = self.candidates(init, consts)
    alive = []
    for k in cands:
      if w.prove(self.path, k(init), ms=3000) is True: alive.append(k)
    while True:
      inv = [k(S) for k in alive]
      c = cond(S)
      snap = list(w.E), list(w.facts), dict(w.ufs)
      self.path += inv + [c]
      try:
        S1 = body(list(S))
        for x, y in zip(S, S1):
          if type(x) is not type(y) and not (isnum(x) and isnum(y)): raise Unsupported('loop changes kind')
        bad = [k for k in alive if w.prove(self.path, k(S1)) is not True]
      finally:
        del self.path[len(self.path) - len(inv) - 1:]
      if not bad: break
      alive = [k for k in alive if k not in bad]
      w.E, w.facts, w.ufs = snap
    w.kept.append(len(alive))
    T = [self.havoc(v) for v in init]
    for k in alive: self.fact(k(T))
    self.fact(z3.Not(cond(T)))
    return T
