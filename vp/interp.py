"""Symbolic semantics of jaxprs: every array is a function index -> scalar term."""
from fractions import Fraction
import itertools
import math
import numpy as np
import jax
from jax import core
from jax.experimental.export import shape_poly
from . import terms as t
from .terms import (T, TRUE, FALSE, R, I, land, lor, lnot, ite, padd, psub, pneg,
                    pmul, ppow, pinv, pscale, const_val)


class Unsupported(Exception):
  pass


# ------------------------------------------------------------------ extended reals
class X:
  """A float: finite real `v`, or NaN / +Inf / -Inf according to the flags."""
  __slots__ = ('v', 'nan', 'pi', 'ni')

  def __init__(self, v, nan=FALSE, pi=FALSE, ni=FALSE):
    self.v = v; self.nan = nan; self.pi = pi; self.ni = ni

  def inf(self): return lor(self.pi, self.ni)
  def special(self): return lor(self.nan, self.pi, self.ni)
  def fin(self): return lnot(self.special())
  def plain(self): return self.nan is FALSE and self.pi is FALSE and self.ni is FALSE
  def zero(self): return land(self.fin(), t.eq0(self.v))
  def pos(self): return lor(self.pi, land(self.fin(), t.gt0(self.v)))
  def neg(self): return lor(self.ni, land(self.fin(), t.gt0(pneg(self.v))))

  def __repr__(self):
    return 'X(%r%s)' % (self.v, '' if self.plain() else ', nan=%r, +inf=%r, -inf=%r' % (self.nan, self.pi, self.ni))


def xconst(c):
  c = float(c)
  if math.isnan(c): return X(R(0), nan=TRUE)
  if math.isinf(c): return X(R(0), pi=t.blit(c > 0), ni=t.blit(c < 0))
  return X(R(Fraction(c)))


def xadd(a, b):
  if a.plain() and b.plain(): return X(padd(a.v, b.v))
  nan = lor(a.nan, b.nan, land(a.pi, b.ni), land(a.ni, b.pi))
  nn = lnot(nan)
  return X(padd(a.v, b.v), nan, land(nn, lor(a.pi, b.pi)), land(nn, lor(a.ni, b.ni)))


def xneg(a): return X(pneg(a.v), a.nan, a.ni, a.pi)


def xmul(a, b):
  if a.plain() and b.plain(): return X(pmul(a.v, b.v))
  nan = lor(a.nan, b.nan, land(a.inf(), b.zero()), land(a.zero(), b.inf()))
  isinf = land(lnot(nan), lor(a.inf(), b.inf()))
  if isinf is FALSE: return X(pmul(a.v, b.v), nan)
  ps = lor(land(a.pos(), b.pos()), land(a.neg(), b.neg()))
  return X(pmul(a.v, b.v), nan, land(isinf, ps), land(isinf, lnot(ps)))


def zsign(p):
  """Sign bit of a zero value of p: True means +0."""
  if not t.sign(p)[0]: return TRUE
  return t.mk('fn', 'B', 'zsign', p)


def xdiv(a, b):
  bz = b.zero()
  if a.plain() and b.plain() and bz is FALSE: return X(pmul(a.v, pinv(b.v)))
  nan = lor(a.nan, b.nan, land(a.zero(), bz), land(a.inf(), b.inf()))
  isinf = land(lnot(nan), lor(a.inf(), bz))
  bpos = lor(b.pos(), land(bz, zsign(b.v)))
  bneg = lor(b.neg(), land(bz, lnot(zsign(b.v))))
  ps = lor(land(a.pos(), bpos), land(a.neg(), bneg))
  v = ite(b.inf(), R(0), pmul(a.v, pinv(b.v)))
  return X(v, nan, land(isinf, ps), land(isinf, lnot(ps)))


def xlt(a, b):
  if a.plain() and b.plain(): return t.lt(a.v, b.v)
  ok = land(lnot(a.nan), lnot(b.nan))
  return land(ok, lor(land(a.ni, lnot(b.ni)), land(b.pi, lnot(a.pi)),
                      land(a.fin(), b.fin(), t.lt(a.v, b.v))))


def xle(a, b):
  if a.plain() and b.plain(): return t.le(a.v, b.v)
  ok = land(lnot(a.nan), lnot(b.nan))
  return land(ok, lor(a.ni, b.pi, land(a.fin(), b.fin(), t.le(a.v, b.v))))


def xeq(a, b):
  """IEEE equality."""
  if a.plain() and b.plain(): return t.eq(a.v, b.v)
  return lor(land(a.pi, b.pi), land(a.ni, b.ni), land(a.fin(), b.fin(), t.eq(a.v, b.v)))


def xsame(a, b):
  """Same extended value (NaN equals NaN)."""
  return land(t.iff(a.nan, b.nan), t.iff(a.pi, b.pi), t.iff(a.ni, b.ni),
              lor(a.special(), t.eq(a.v, b.v)))


def xmax(a, b):
  if a.plain() and b.plain(): return X(t.tmax(a.v, b.v))
  nan = lor(a.nan, b.nan)
  nn = lnot(nan)
  pi = land(nn, lor(a.pi, b.pi))
  ni = land(nn, a.ni, b.ni)
  v = ite(a.ni, b.v, ite(b.ni, a.v, t.tmax(a.v, b.v)))
  return X(v, nan, pi, ni)


def xmin(a, b): return xneg(xmax(xneg(a), xneg(b)))


def xite(c, a, b):
  if c is TRUE: return a
  if c is FALSE: return b
  return X(ite(c, a.v, b.v), t.bite(c, a.nan, b.nan), t.bite(c, a.pi, b.pi), t.bite(c, a.ni, b.ni))


def xsqrt(a):
  nan = lor(a.nan, a.ni, land(a.fin(), t.gt0(pneg(a.v))))
  return X(t.fsqrt(a.v), nan, a.pi, FALSE)


def xrsqrt(a):
  nan = lor(a.nan, a.ni, land(a.fin(), t.gt0(pneg(a.v))))
  return X(ite(a.pi, R(0), pinv(t.fsqrt(a.v))), nan, a.zero(), FALSE)


def xexp(a): return X(ite(a.ni, R(0), t.fexp(a.v)), a.nan, a.pi, FALSE)


def xlog(a):
  nan = lor(a.nan, a.neg())
  return X(t.flog(a.v), nan, a.pi, a.zero())


def xcos(a): return X(t.fcos(a.v), lor(a.nan, a.inf()))


def _int_valued(p):
  for m, c in p.a[0]:
    if c.denominator != 1: return False
    for a, e in m:
      if e < 0: return False
      if a.k == 'i2r' or (a.k == 'fn' and a.a[0] in ('floor',)): continue
      if a.k == 'ite' and _int_valued(a.a[1]) and _int_valued(a.a[2]): continue
      if a.k == 'fn' and a.a[0] == 'max' and _int_valued(a.a[1]) and _int_valued(a.a[2]): continue
      return False
  return True


def xpow(a, b):
  c = const_val(b.v) if b.plain() else None
  if c is not None:
    if c == 0: return X(R(1))
    if c.denominator == 1 and abs(c) <= 16:
      return xipow(a, int(c))
    if c == Fraction(1, 2): return xsqrt(a)
    if c == Fraction(-1, 2): return xrsqrt(a)
  if a.inf() is not FALSE or b.inf() is not FALSE:
    raise Unsupported('pow of possibly infinite operands')
  nan = lor(a.nan, b.nan)
  if not _int_valued(b.v): nan = lor(nan, land(lnot(b.nan), t.gt0(pneg(a.v))))
  pi = land(lnot(nan), t.eq0(a.v), t.gt0(pneg(b.v)))
  return X(t.fpow(a.v, b.v), nan, pi)


def xipow(a, n):
  if n == 0: return X(R(1))
  if n < 0: return xdiv(X(R(1)), xipow(a, -n))
  if a.plain(): return X(ppow(a.v, n))
  if n % 2 == 0:
    return X(ppow(a.v, n), a.nan, a.inf(), FALSE)
  return X(ppow(a.v, n), a.nan, a.pi, a.ni)


def xsign(a):
  v = ite(t.gt0(a.v), R(1), ite(t.gt0(pneg(a.v)), R(-1), R(0)))
  v = ite(a.pi, R(1), ite(a.ni, R(-1), v))
  return X(v, a.nan)


def xabs(a): return X(t.fabs(a.v), a.nan, a.inf(), FALSE)


def xfn(name):
  def f(a):
    if a.inf() is not FALSE: raise Unsupported(name + ' of infinity')
    return X(t.fn(name, a.v), a.nan)
  return f


def xfloor(a):
  c = const_val(a.v)
  if c is not None and a.plain(): return X(R(math.floor(c)))
  if a.plain() and _int_valued(a.v): return a
  return X(t.fn('floor', a.v), a.nan, a.pi, a.ni)


# ------------------------------------------------------------------ arrays
def kind(dtype):
  if dtype == jax.dtypes.float0: return 'B'
  if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key): return 'K'
  d = np.dtype(dtype)
  if d == np.bool_: return 'B'
  if jax.dtypes.issubdtype(d, np.floating): return 'R'
  if jax.dtypes.issubdtype(d, np.integer): return 'I'
  raise Unsupported('dtype %s' % d)


def int_range(dtype):
  info = np.iinfo(dtype)
  return int(info.min), int(info.max)


def fit(a, sh):
  """Operand of an elementwise operation; rank-0 and size-1 operands are stretched."""
  if len(a.shape) == 0: return lambda idx: a(())
  if len(a.shape) != len(sh): raise Unsupported('rank mismatch')
  one = [const_val(x) == 1 and const_val(y) != 1 for x, y in zip(a.shape, sh)]
  if not any(one): return a
  return lambda idx: a(tuple(I(0) if o else i for o, i in zip(one, idx)))


class SArr:
  def __init__(self, shape, dtype, f):
    self.shape = tuple(shape)      # I polynomials
    self.dtype = dtype
    self.f = f
    self.memo = {}

  def __call__(self, idx):
    idx = tuple(idx)
    r = self.memo.get(idx)
    if r is None:
      r = self.f(idx)
      self.memo[idx] = r
    return r


_dimcache = {}


def dim_term(d):
  """A JAX dimension (int or symbolic) as an I polynomial."""
  if isinstance(d, (int, np.integer)): return I(int(d))
  r = I(0)
  for mon, c in d._coeffs.items():
    q = I(c)
    for at, e in mon.items():
      v = at.to_var()
      if v is not None:
        name = 'dim_' + v
        av = t.mk('var', 'I', name)
        if av not in t.IRANGE and name not in t.IRANGE:
          t.IRANGE[name] = (1, None); t.EPOCH[0] += 1
        q = pmul(q, ppow(t.atom(av), e))
      elif at.operation == 'floordiv':
        q = pmul(q, ppow(t.idiv(*[dim_term(o) for o in at.operands]), e))
      elif at.operation == 'mod':
        q = pmul(q, ppow(t.imod(*[dim_term(o) for o in at.operands]), e))
      elif at.operation == 'non_negative':
        q = pmul(q, ppow(t.tmax(dim_term(at.operands[0]), I(0)), e))
      else:
        raise Unsupported('dimension op %s' % at.operation)
    r = padd(r, q)
  return r


def shape_terms(shape):
  return tuple(dim_term(d) for d in shape)


def rational(c, dtype):
  """The 'intended' rational of a float literal: shortest decimal or small fraction."""
  c = float(c)
  if c == int(c) and abs(c) < 2**53: return Fraction(int(c))
  d = np.dtype(dtype) if dtype != jax.numpy.bfloat16 else None
  if d is not None and d in (np.dtype(np.float32), np.dtype(np.float64), np.dtype(np.float16)):
    typ = d.type
    fr = Fraction(c).limit_denominator(1000)
    if typ(float(fr)) == typ(c): return fr
    s = repr(typ(c))
    if '(' in s: s = s[s.index('(') + 1:-1]
    return Fraction(s)
  fr = Fraction(c).limit_denominator(100)
  if float(jax.numpy.bfloat16(float(fr))) == c: return fr
  return Fraction(c)


_PI_LITS = {}


def lit_real(c, dtype):
  c = float(c)
  if math.isnan(c) or math.isinf(c): return xconst(c)
  for mult in (1, 2, Fraction(1, 2), -1, -2, Fraction(-1, 2)):
    target = math.pi * float(mult)
    if c == target or c == float(np.float32(target)):
      return X(pscale(t.atom(t.PI_ATOM()), mult))
  for name, val in (('sqrt2', math.sqrt(2)), ('sqrt2pi', math.sqrt(2 * math.pi))):
    if c == val or c == float(np.float32(val)):
      p = t.fsqrt(R(2))
      if name == 'sqrt2pi': p = pmul(p, t.fsqrt(t.atom(t.PI_ATOM())))
      return X(p)
  if c == float(np.float32(math.log(2 * math.pi))) or c == math.log(2 * math.pi):
    return X(t.flog(pscale(t.atom(t.PI_ATOM()), 2)))
  return X(R(rational(c, dtype)))


def const_elem(v, dtype):
  k = kind(dtype)
  if k == 'R': return lit_real(v, dtype)
  if k == 'I': return I(int(v))
  return t.blit(bool(v))


def const_array(val):
  val_np = np.asarray(val)
  dtype = val_np.dtype
  if val_np.ndim == 0:
    e = const_elem(val_np[()], dtype)
    return SArr((), dtype, lambda idx: e)
  uniform = val_np.size > 0 and (val_np == val_np.flat[0]).all()
  if uniform:
    e = const_elem(val_np.flat[0], dtype)
    return SArr([I(d) for d in val_np.shape], dtype, lambda idx: e)

  def f(idx):
    return pick(idx, val_np.shape, lambda ii: const_elem(val_np[ii], dtype), kind(dtype))
  return SArr([I(d) for d in val_np.shape], dtype, f)


def eite(k, c, a, b):
  if k == 'R': return xite(c, a, b)
  if k == 'B': return t.bite(c, a, b)
  if k == 'K':
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return t.mk('kite', 'K', c, a, b)
  return ite(c, a, b)


def pick(idx, shape, get, k):
  """Element at a possibly symbolic index of a literal-shaped array."""
  def rec(pos, chosen):
    if pos == len(idx): return get(tuple(chosen))
    c = const_val(idx[pos])
    if c is not None: return rec(pos + 1, chosen + [int(c)])
    n = shape[pos]
    if n == 0: return X(t.R(0)) if k == 'R' else FALSE if k == 'B' else I(0)   # no such element
    r = rec(pos + 1, chosen + [n - 1])
    for j in range(n - 2, -1, -1):
      r = eite(k, t.eq(idx[pos], I(j)), rec(pos + 1, chosen + [j]), r)
    return r
  return rec(0, [])


def sym_array(name, shape, dtype, special=False):
  k = kind(dtype)
  sh = shape_terms(shape)

  def f(idx):
    if k == 'R':
      x = X(t.app('R', name, idx))
      if special:
        kd = t.app('B', name + '!nan', idx), t.app('B', name + '!inf', idx), t.app('B', name + '!neg', idx)
        return X(x.v, kd[0], land(lnot(kd[0]), kd[1], lnot(kd[2])), land(lnot(kd[0]), kd[1], kd[2]))
      return x
    return t.app(k, name, idx)
  if k == 'I':
    if name not in t.IRANGE:
      t.IRANGE[name] = int_range(dtype); t.EPOCH[0] += 1
  return SArr(sh, dtype, f)


# ------------------------------------------------------------------ scalar op tables
def _wrapd(p, dtype):
  lo, hi = int_range(dtype)
  return t.wrap(p, lo, hi)


def iabs(p): return t.fabs(p)


def itdiv(a, b):
  if not t.sign(a)[0] and not t.sign(b)[0]: return t.idiv(a, b)
  q = t.idiv(t.fabs(a), t.fabs(b))
  s = t.iff(t.ge0(a), t.ge0(b))
  return ite(s, q, pneg(q))


def itrem(a, b):
  return psub(a, pmul(b, itdiv(a, b)))


def isign(p): return ite(t.gt0(p), I(1), ite(t.gt0(pneg(p)), I(-1), I(0)))


ROUND = [False]     # contracts may ask for narrowing float conversions to be opaque functions
MANT = {'float64': 53, 'float32': 24, 'float16': 11, 'bfloat16': 8}


def convert(e, src, dst):
  ks, kd = kind(src), kind(dst)
  if ks == kd:
    if ks == 'I': return _wrapd(e, dst)
    if ROUND[0] and ks == 'R' and MANT.get(str(np.dtype(dst)), 99) < MANT.get(str(np.dtype(src)), 0):
      if const_val(e.v) in (0, 1): return e
      return X(t.fn('rnd_%s' % np.dtype(dst), e.v), e.nan, e.pi, e.ni)
    return e
  if ks == 'I' and kd == 'R': return X(t.i2r(e))
  if ks == 'B' and kd == 'R': return X(ite(e, R(1), R(0)))
  if ks == 'B' and kd == 'I': return ite(e, I(1), I(0))
  if ks == 'I' and kd == 'B': return lnot(t.eq0(e))
  if ks == 'R' and kd == 'B': return lor(e.special(), lnot(t.eq0(e.v)))
  if ks == 'R' and kd == 'I':
    c = const_val(e.v)
    if c is not None and e.plain(): return I(math.trunc(c))
    if not e.plain(): raise Unsupported('float->int of possibly special value')
    at = t.as_atom(e.v)
    if _int_valued(e.v):
      p = r2i(e.v)
      if p is not None: return _wrapd(p, dst)
    return t.fn('trunc', e.v, sort='I')
  raise Unsupported('convert %s->%s' % (src, dst))


def r2i(p):
  r = I(0)
  for m, c in p.a[0]:
    q = I(c)
    for a, e in m:
      if a.k == 'i2r': b = t.atom(a.a[0])
      elif a.k == 'ite':
        b = ite(a.a[0], r2i(a.a[1]), r2i(a.a[2]))
      elif a.k == 'fn' and a.a[0] == 'max': b = t.tmax(r2i(a.a[1]), r2i(a.a[2]))
      elif a.k == 'fn' and a.a[0] == 'floor':
        b = t.fn('ifloor', a.a[1], sort='I')
      else: return None
      q = pmul(q, ppow(b, e))
    r = padd(r, q)
  return r


UN = {
    'neg': (xneg, pneg), 'sqrt': (xsqrt, None), 'rsqrt': (xrsqrt, None), 'exp': (xexp, None),
    'log': (xlog, None), 'log1p': (lambda a: xlog(xadd(a, X(R(1)))), None),
    'expm1': (lambda a: xadd(xexp(a), X(R(-1))), None),
    'cos': (xcos, None), 'sign': (xsign, isign), 'abs': (xabs, iabs), 'floor': (xfloor, None),
    'ceil': (lambda a: xneg(xfloor(xneg(a))), None),
    'round': (xfn('round'), None),
    'sin': (xfn('sin'), None), 'tan': (xfn('tan'), None), 'erf': (xfn('erf'), None), 'erf_inv': (xfn('erf_inv'), None),
    'tanh': (lambda a: xtanh(a), None), 'cbrt': (xfn('cbrt'), None),
    'logistic': (lambda a: xdiv(X(R(1)), xadd(X(R(1)), xexp(xneg(a)))), None),
    'real': (lambda a: a, None), 'conj': (lambda a: a, None),
}


def xtanh(a):
  e = xexp(xadd(a, a))
  if not a.plain(): raise Unsupported('tanh of special')
  return xdiv(xadd(e, X(R(-1))), xadd(e, X(R(1))))


BIN_R = {'add': xadd, 'sub': lambda a, b: xadd(a, xneg(b)), 'mul': xmul, 'div': xdiv,
         'max': xmax, 'min': xmin, 'pow': xpow, 'add_any': xadd,
         'atan2': None}
BIN_I = {'add': padd, 'sub': psub, 'mul': pmul, 'div': itdiv, 'rem': itrem,
         'max': t.tmax, 'min': t.tmin, 'add_any': padd}
BIN_B = {'and': land, 'or': lor, 'xor': t.lxor, 'max': lor, 'min': land, 'mul': land, 'add': lor, 'add_any': lor}
CMP_R = {'lt': xlt, 'le': xle, 'gt': lambda a, b: xlt(b, a), 'ge': lambda a, b: xle(b, a),
         'eq': xeq, 'ne': lambda a, b: lnot(xeq(a, b)),
         'eq_to': xsame}
CMP_I = {'lt': t.lt, 'le': t.le, 'gt': lambda a, b: t.lt(b, a), 'ge': lambda a, b: t.le(b, a),
         'eq': t.eq, 'ne': lambda a, b: lnot(t.eq(a, b))}
CMP_B = {'eq': t.iff, 'ne': t.lxor}


def xrem(a, b):
  """C fmod for plain operands."""
  if not (a.plain() and b.plain()): raise Unsupported('rem of special')
  q = xdiv(a, b)
  fl = xfloor(X(t.fabs(q.v)))
  tr = ite(t.ge0(q.v), fl.v, pneg(fl.v))
  return X(psub(a.v, pmul(b.v, tr)), t.eq0(b.v))


BIN_R['rem'] = xrem


def sum_elems(k, ranges, body_fn):
  """Sum reduction of extended values."""
  frs = t.ranged(ranges)
  e = body_fn(frs)
  if k == 'I': return t.red_('sum', ranges, frs, e)
  v = t.red_('sum', ranges, frs, e.v)
  if e.plain(): return X(v)
  ex = lambda b: lnot(t.forall_(ranges, frs, lnot(b)))
  anan, api, ani = ex(e.nan), ex(e.pi), ex(e.ni)
  nan = lor(anan, land(api, ani))
  return X(v, nan, land(lnot(nan), api), land(lnot(nan), ani))


def max_elems(k, ranges, body_fn):
  frs = t.ranged(ranges)
  e = body_fn(frs)
  if k == 'I': return t.red_('max', ranges, frs, e)
  if e.plain(): return X(t.red_('max', ranges, frs, e.v))
  if e.pi is FALSE and e.ni is FALSE:
    return X(t.red_('max', ranges, frs, e.v), lnot(t.forall_(ranges, frs, lnot(e.nan))))
  n = 1
  for d in ranges:
    c = const_val(d)
    if c is None: raise Unsupported('max over infinite values')
    n *= int(c)
  r = None
  for ii in itertools.product(*[range(int(const_val(d))) for d in ranges]):
    b = [I(i) for i in ii]
    mp = {t.as_atom(f): x for f, x in zip(frs, b)}
    y = X(*[t.subst(z, mp) for z in (e.v, e.nan, e.pi, e.ni)])
    r = y if r is None else xmax(r, y)
  return r


# ------------------------------------------------------------------ key algebra
def k_wrap(a0, a1):
  def kd(p):
    at = t.as_atom(p)
    if at is not None and at.k == 'fn' and at.a[0] == 'kd': return at.a[1], at.a[2]
    return None
  x, y = kd(a0), kd(a1)
  if x and y and x[0] is y[0] and (x[1], y[1]) == (0, 1): return x[0]
  return t.mk('key', 'K', a0, a1)


def k_unwrap(kt, j):
  c = const_val(j)
  if c is None:
    return ite(t.eq0(j), k_unwrap(kt, I(0)), k_unwrap(kt, I(1)))
  if kt.k == 'key': return kt.a[int(c)]
  if kt.k == 'kite': return ite(kt.a[0], k_unwrap(kt.a[1], j), k_unwrap(kt.a[2], j))
  p = t.mk('fn', 'I', 'kd', kt, int(c))
  t.IRANGE[p] = (0, 2**32 - 1)
  return t.atom(p)


def key_lift(kt, f):
  """Apply f through key conditionals."""
  if kt.k == 'kite': return xite(kt.a[0], key_lift(kt.a[1], f), key_lift(kt.a[2], f))
  return f(kt)


# ------------------------------------------------------------------ the interpreter
CALL_PRIMS = {'pjit': 'jaxpr', 'custom_jvp_call': 'call_jaxpr', 'custom_vjp_call_jaxpr': 'fun_jaxpr',
              'custom_vjp_call': 'call_jaxpr', 'closed_call': 'call_jaxpr', 'core_call': 'call_jaxpr',
              'core_closed_call': 'call_jaxpr',
              'remat': 'jaxpr', 'checkpoint': 'jaxpr', 'remat2': 'jaxpr', 'custom_lin': None, 'xla_call': 'call_jaxpr'}

RNG_JITS = {'_normal': 'normal', '_uniform': 'uniform', '_normal_real': 'normal'}


class Interp:
  def __init__(self, special=(), while_hook=None):
    self.inputs = {}        # name -> SArr
    self.while_hook = while_hook
    self.unsupported_notes = []
    self.loops = []

  # -- driver
  def run(self, closed, args):
    return self.eval_jaxpr(closed.jaxpr, [self.const(c) for c in closed.consts], args)

  def const(self, c):
    if isinstance(c, SArr): return c
    if isinstance(c, (np.ndarray, np.generic, int, float, bool)): return const_array(c)
    if isinstance(c, jax.Array) and jax.dtypes.issubdtype(c.dtype, jax.dtypes.prng_key):
      raise Unsupported('key constant')
    return const_array(np.asarray(c))

  def eval_jaxpr(self, jaxpr, consts, args):
    env = {}

    def read(v):
      if isinstance(v, core.Literal): return lit_array(v)
      return env[v]

    for v, c in zip(jaxpr.constvars, consts): env[v] = c
    for v, a in zip(jaxpr.invars, args): env[v] = a
    for eqn in jaxpr.eqns:
      ins = [read(v) for v in eqn.invars]
      outs = self.eqn(eqn, ins)
      for v, o in zip(eqn.outvars, outs): env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, eqn, ins):
    name = eqn.primitive.name
    p = eqn.params
    if name in CALL_PRIMS and CALL_PRIMS[name] in p:
      j = p[CALL_PRIMS[name]]
      if name == 'pjit' and p.get('name') in RNG_JITS:
        r = self.rng_jit(RNG_JITS[p['name']], eqn, ins)
        if r is not None: return r
      if isinstance(j, core.ClosedJaxpr):
        return self.eval_jaxpr(j.jaxpr, [self.const(c) for c in j.consts], ins)
      return self.eval_jaxpr(j, [], ins)
    m = getattr(self, 'p_' + name.replace('-', '_'), None)
    out_avals = [v.aval for v in eqn.outvars]
    if m is not None:
      r = m(eqn, ins, p, out_avals)
      return r if isinstance(r, list) else [r]
    if name in UN: return [self.unary(name, ins[0], out_avals[0])]
    if name in BIN_R or name in BIN_I or name in BIN_B or name in CMP_R:
      return [self.binary(name, ins[0], ins[1], out_avals[0])]
    raise Unsupported('primitive %s' % name)

  def rng_jit(self, what, eqn, ins):
    keyarr = ins[0]
    if kind(keyarr.dtype) != 'K':
      return None
    aval = eqn.outvars[0].aval
    sh = shape_terms(aval.shape)
    if keyarr.shape: return None
    extra = ins[1:]

    def f(idx):
      kt = keyarr(())
      def g(kk):
        a = t.mk('fn', 'R', what, kk, *sh, *idx)
        v = t.atom(a)
        return X(v)
      base = key_lift(kt, g)
      if what == 'uniform':
        lo, hi = [x(()) if kind(x.dtype) == 'R' else X(t.i2r(x(()))) for x in extra]
        if not (lo.plain() and hi.plain() and const_val(lo.v) == 0 and const_val(hi.v) == 1):
          base = xadd(lo, xmul(base, xadd(hi, xneg(lo))))
      return base
    return [SArr(sh, aval.dtype, f)]

  # -- elementwise
  def unary(self, name, a, aval):
    k = kind(a.dtype)
    fr, fi = UN[name]
    if k == 'R': f = fr
    elif k == 'I':
      if fi is None: raise Unsupported('%s on ints' % name)
      dt = aval.dtype
      f = lambda e: _wrapd(fi(e), dt)
    else: raise Unsupported('%s on %s' % (name, k))
    return SArr(a.shape, aval.dtype, lambda idx: f(a(idx)))

  def binary(self, name, a, b, aval):
    k = kind(a.dtype)
    if name in CMP_R:
      tab = {'R': CMP_R, 'I': CMP_I, 'B': CMP_B}.get(k, {})
      f = tab.get(name)
    else:
      f = {'R': BIN_R, 'I': BIN_I, 'B': BIN_B}.get(k, {}).get(name)
      if f is not None and k == 'I':
        g, dt = f, aval.dtype
        f = lambda x, y: _wrapd(g(x, y), dt)
    if f is None: raise Unsupported('%s on %s' % (name, k))
    kb = kind(b.dtype)
    sh = shape_terms(aval.shape)
    ga, gb = fit(a, sh), fit(b, sh)
    if name == 'pow' and kb == 'I':
      return SArr(sh, aval.dtype, lambda idx: f(ga(idx), X(t.i2r(gb(idx)))))
    return SArr(sh, aval.dtype, lambda idx: f(ga(idx), gb(idx)))

  def p_integer_pow(self, eqn, ins, p, av):
    n = p['y']; a = ins[0]
    if kind(a.dtype) == 'R': return SArr(a.shape, av[0].dtype, lambda i: xipow(a(i), n))
    dt = av[0].dtype
    return SArr(a.shape, dt, lambda i: _wrapd(ppow(a(i), n), dt))

  def p_square(self, eqn, ins, p, av):
    a = ins[0]
    return SArr(a.shape, av[0].dtype, lambda i: xipow(a(i), 2) if kind(a.dtype) == 'R' else _wrapd(ppow(a(i), 2), av[0].dtype))

  def p_not(self, eqn, ins, p, av):
    a = ins[0]
    if kind(a.dtype) != 'B': raise Unsupported('bitwise not')
    return SArr(a.shape, av[0].dtype, lambda i: lnot(a(i)))

  def p_is_finite(self, eqn, ins, p, av):
    a = ins[0]
    return SArr(a.shape, av[0].dtype, lambda i: a(i).fin())

  def p_convert_element_type(self, eqn, ins, p, av):
    a = ins[0]; d = av[0].dtype; s = a.dtype
    return SArr(a.shape, d, lambda i: convert(a(i), s, d))

  def p_copy(self, eqn, ins, p, av): return ins[0]
  p_copy_p = p_copy
  p_stop_gradient = p_copy
  p_device_put = p_copy
  p_optimization_barrier = lambda self, eqn, ins, p, av: list(ins)

  def p_reduce_precision(self, eqn, ins, p, av): return ins[0]

  def p_select_n(self, eqn, ins, p, av):
    sh0 = shape_terms(av[0].shape)
    c, cases = fit(ins[0], sh0), [fit(x, sh0) for x in ins[1:]]
    k = kind(av[0].dtype)

    def f(idx):
      ci = c(idx)
      if kind(ins[0].dtype) == 'B':
        if ci is TRUE: return cases[1](idx)
        if ci is FALSE: return cases[0](idx)
        return eite(k, ci, cases[1](idx), cases[0](idx))
      r = cases[-1](idx)
      for n in range(len(cases) - 2, -1, -1):
        r = eite(k, t.eq(ci, I(n)), cases[n](idx), r)
      return r
    return SArr(shape_terms(av[0].shape), av[0].dtype, f)

  def p_clamp(self, eqn, ins, p, av):
    lo, x, hi = ins
    k = kind(av[0].dtype)
    g = lambda a, idx: a(idx) if a.shape else a(())
    if k == 'R': f = lambda i: xmin(xmax(x(i), g(lo, i)), g(hi, i))
    else: f = lambda i: t.tmin(t.tmax(x(i), g(lo, i)), g(hi, i))
    return SArr(x.shape, av[0].dtype, f)

  def p_nextafter(self, eqn, ins, p, av):
    return ins[0]

  # -- shape ops
  def p_broadcast_in_dim(self, eqn, ins, p, av):
    a = ins[0]; bd = p['broadcast_dimensions']
    sh = shape_terms(av[0].shape)

    def f(idx):
      ii = []
      for k, d in enumerate(bd):
        ii.append(I(0) if const_val(a.shape[k]) == 1 and sh[d] is not a.shape[k] else idx[d])
        if const_val(a.shape[k]) == 1: ii[-1] = I(0)
      return a(ii)
    return SArr(sh, av[0].dtype, f)

  def p_squeeze(self, eqn, ins, p, av):
    a = ins[0]; dims = [d % len(a.shape) for d in p['dimensions']]

    def f(idx):
      ii, n = [], 0
      for d in range(len(a.shape)):
        if d in dims: ii.append(I(0))
        else: ii.append(idx[n]); n += 1
      return a(ii)
    return SArr(shape_terms(av[0].shape), av[0].dtype, f)

  def p_expand_dims(self, eqn, ins, p, av):
    a = ins[0]; dims = p['dimensions']
    return SArr(shape_terms(av[0].shape), av[0].dtype, lambda idx: a([x for d, x in enumerate(idx) if d not in dims]))

  def p_transpose(self, eqn, ins, p, av):
    a = ins[0]; perm = p['permutation']

    def f(idx):
      ii = [None] * len(perm)
      for o, s in enumerate(perm): ii[s] = idx[o]
      return a(ii)
    return SArr(shape_terms(av[0].shape), av[0].dtype, f)

  def p_reshape(self, eqn, ins, p, av):
    a = ins[0]
    if p.get('dimensions') is not None: raise Unsupported('reshape dimensions')
    return reshape(a, shape_terms(av[0].shape), av[0].dtype)

  def p_rev(self, eqn, ins, p, av):
    a = ins[0]; dims = p['dimensions']
    return SArr(a.shape, a.dtype, lambda idx: a([psub(psub(a.shape[d], I(1)), x) if d in dims else x for d, x in enumerate(idx)]))

  def p_slice(self, eqn, ins, p, av):
    a = ins[0]
    st = shape_terms(p['start_indices'])
    sr = shape_terms(p['strides']) if p['strides'] else None
    return SArr(shape_terms(av[0].shape), a.dtype,
                lambda idx: a([padd(s, x if sr is None else pmul(x, sr[d])) for d, (s, x) in enumerate(zip(st, idx))]))

  def p_dynamic_slice(self, eqn, ins, p, av):
    a, starts = ins[0], ins[1:]
    sizes = shape_terms(p['slice_sizes'])
    n = len(sizes)
    starts = starts[:n]

    def f(idx):
      ii = []
      for d in range(n):
        s = starts[d](())
        mx = psub(a.shape[d], sizes[d])
        s = t.tmin(t.tmax(s, I(0)), mx)
        ii.append(padd(s, idx[d]))
      return index_elem(a, ii)
    return SArr(sizes, a.dtype, f)

  def p_dynamic_update_slice(self, eqn, ins, p, av):
    a, u, starts = ins[0], ins[1], ins[2:]
    k = kind(a.dtype)

    def f(idx):
      conds, ii = [], []
      for d in range(len(a.shape)):
        s = starts[d](())
        s = t.tmin(t.tmax(s, I(0)), psub(a.shape[d], u.shape[d]))
        o = psub(idx[d], s)
        conds += [t.ge0(o), t.lt(o, u.shape[d])]
        ii.append(o)
      c = land(*conds)
      if c is FALSE: return a(idx)
      if const_all(u.shape) and any(const_val(x) is None for x in ii):
        ii = [I(0) if const_val(u.shape[d]) == 1 else x for d, x in enumerate(ii)]
      return eite(k, c, index_elem(u, ii), a(idx))
    return SArr(a.shape, a.dtype, f)

  def p_concatenate(self, eqn, ins, p, av):
    d = p['dimension']; k = kind(av[0].dtype)

    def f(idx):
      off = I(0)
      offs = []
      for a in ins: offs.append(off); off = padd(off, a.shape[d])
      r = None
      for a, o in reversed(list(zip(ins, offs))):
        ii = list(idx); ii[d] = psub(idx[d], o)
        inside = t.lt(ii[d], a.shape[d])
        if r is None:
          if t.ge0(ii[d]) is FALSE: continue
          r = lambda a=a, ii=ii: a(ii)
        else:
          nxt = r
          if inside is TRUE: r = lambda a=a, ii=ii: a(ii)
          elif inside is FALSE: r = nxt
          else: r = lambda a=a, ii=ii, nxt=nxt, inside=inside: eite(k, inside, a(ii), nxt())
      return r()
    return SArr(shape_terms(av[0].shape), av[0].dtype, f)

  def p_pad(self, eqn, ins, p, av):
    a, v = ins; k = kind(a.dtype)
    cfg = [tuple(dim_term(x) for x in c) for c in p['padding_config']]
    if any(const_val(c[2]) != 0 for c in cfg): raise Unsupported('interior padding')

    def f(idx):
      ii = [psub(x, c[0]) for x, c in zip(idx, cfg)]
      c = land(*[land(t.ge0(x), t.lt(x, d)) for x, d in zip(ii, a.shape)])
      if c is FALSE: return v(())
      return eite(k, c, a(ii), v(()))
    return SArr(shape_terms(av[0].shape), a.dtype, f)

  def p_iota(self, eqn, ins, p, av):
    d = p['dimension']; k = kind(av[0].dtype)
    return SArr(shape_terms(av[0].shape), av[0].dtype, lambda idx: idx[d] if k == 'I' else X(t.i2r(idx[d])))

  def p_dim_as_value(self, eqn, ins, p, av):
    d = dim_term(p['dim'])
    return SArr((), av[0].dtype, lambda idx: d)

  def p_gather(self, eqn, ins, p, av):
    a, si = ins
    dn = p['dimension_numbers']; sizes = shape_terms(p['slice_sizes'])
    sh = shape_terms(av[0].shape)
    off = dn.offset_dims; coll = dn.collapsed_slice_dims; sim = dn.start_index_map
    nb = len(sh) - len(off)
    mode = str(p.get('mode'))
    batch_pos = [d for d in range(len(sh)) if d not in off]
    slice_pos = [d for d in range(len(a.shape)) if d not in coll]
    k = kind(a.dtype)

    def f(idx):
      b = [idx[d] for d in batch_pos]
      ii = [I(0)] * len(a.shape)
      ok = TRUE
      for n, d in enumerate(sim):
        s = si(b + [I(n)])
        mx = psub(a.shape[d], sizes[d])
        if 'CLIP' in mode or 'clip' in mode or 'FILL' in mode or 'fill' in mode:
          ok = land(ok, t.ge0(s), t.le(s, mx))
          if 'CLIP' in mode or 'clip' in mode: s = t.tmin(t.tmax(s, I(0)), mx)
        ii[d] = s
      for n, d in enumerate(slice_pos):
        ii[d] = padd(ii[d], idx[off[n]])
      r = index_elem(a, ii)
      if ('FILL' in mode or 'fill' in mode) and ok is not TRUE:
        fill = X(R(0), nan=TRUE) if k == 'R' else (FALSE if k == 'B' else I(int_range(a.dtype)[0]))
        r = eite(k, ok, r, fill)
      return r
    return SArr(sh, av[0].dtype, f)

  def p_scatter(self, eqn, ins, p, av, add=False):
    a, si, u = ins
    dn = p['dimension_numbers']
    if getattr(dn, 'update_window_dims', ()) not in ((), None):
      uw = dn.update_window_dims
    else: uw = ()
    iw = dn.inserted_window_dims; sd = dn.scatter_dims_to_operand_dims
    k = kind(a.dtype)
    if not const_all(u.shape): return self._scatter_sym(a, si, u, uw, iw, sd, k, add)
    win_op = [d for d in range(len(a.shape)) if d not in iw]
    ush = [int(const_val(d)) for d in u.shape]
    spos = [d for d in range(len(ush)) if d not in uw]

    def f(idx):
      r = a(idx)
      for uu in itertools.product(*[range(n) for n in ush]):
        b = [I(uu[d]) for d in spos]
        ii = [I(0)] * len(a.shape)
        for n, d in enumerate(sd): ii[d] = si(b + [I(n)])
        for n, d in enumerate(win_op): ii[d] = padd(ii[d], I(uu[uw[n]]))
        c = land(*[t.eq(x, y) for x, y in zip(ii, idx)])
        if c is FALSE: continue
        v = u([I(n) for n in uu])
        if add: v = xadd(r, v) if k == 'R' else padd(r, v)
        r = eite(k, c, v, r)
      return r
    return SArr(a.shape, a.dtype, f)

  def _scatter_sym(self, a, si, u, uw, iw, sd, k, add):
    """Scatter of symbolically many updates, each at a different place (checked), or added."""
    win_op = [d for d in range(len(a.shape)) if d not in iw]
    spos = [d for d in range(len(u.shape)) if d not in uw]
    if len(uw) != len(win_op): raise Unsupported('symbolic scatter')

    def f(idx):
      idx = list(idx)

      def at(fr):
        c = TRUE
        ii = [I(0)] * len(a.shape)
        for n, d in enumerate(sd): ii[d] = si(list(fr) + [I(n)])
        uu = [None] * len(u.shape)
        for n, x in zip(spos, fr): uu[n] = x
        for n, d in enumerate(win_op):
          uu[uw[n]] = psub(idx[d], ii[d])
          c = land(c, t.ge0(uu[uw[n]]), t.lt(uu[uw[n]], u.shape[uw[n]]))
        for d in iw: c = land(c, t.eq(ii[d], idx[d]))
        return c, uu
      rng = [u.shape[d] for d in spos]

      def val(fr):
        c, uu = at(fr)
        return eite(k, c, u(uu), X(R(0)) if k == 'R' else I(0))
      if k == 'B': raise Unsupported('symbolic scatter')
      s = sum_elems(k, rng, val)
      if add: return xadd(a(idx), s) if k == 'R' else padd(a(idx), s)
      cnt = sum_elems('I', rng, lambda fr: t.ite(at(fr)[0], I(1), I(0)))
      lo, hi = t.irange(cnt)
      if lo is None or hi is None or lo < 0 or hi > 1: raise Unsupported('symbolic scatter to repeated places')
      return eite(k, t.eq(cnt, I(0)), a(idx), s)
    return SArr(a.shape, a.dtype, f)

  def p_scatter_add(self, eqn, ins, p, av): return self.p_scatter(eqn, ins, p, av, add=True)

  # -- reductions
  def _reduce(self, a, axes, aval, fred):
    axes = [d % len(a.shape) for d in axes]
    rng = [a.shape[d] for d in axes]

    def f(idx):
      def body(fr):
        ii, n = [None] * len(a.shape), 0
        for x, d in zip(fr, axes): ii[d] = x
        for d in range(len(a.shape)):
          if ii[d] is None: ii[d] = idx[n]; n += 1
        return a(ii)
      return fred(rng, body)
    return SArr(shape_terms(aval.shape), aval.dtype, f)

  def p_reduce_sum(self, eqn, ins, p, av):
    k = kind(ins[0].dtype); dt = av[0].dtype
    if k == 'I':
      return self._reduce(ins[0], p['axes'], av[0], lambda r, b: _wrapd(sum_elems('I', r, b), dt))
    return self._reduce(ins[0], p['axes'], av[0], lambda r, b: sum_elems(k, r, b))

  def p_reduce_max(self, eqn, ins, p, av):
    k = kind(ins[0].dtype)
    if k == 'B': return self.p_reduce_or(eqn, ins, p, av)
    return self._reduce(ins[0], p['axes'], av[0], lambda r, b: max_elems(k, r, b))

  def p_reduce_min(self, eqn, ins, p, av):
    k = kind(ins[0].dtype)
    if k == 'B': return self.p_reduce_and(eqn, ins, p, av)
    ng = xneg if k == 'R' else pneg
    return self._reduce(ins[0], p['axes'], av[0], lambda r, b: ng(max_elems(k, r, lambda f: ng(b(f)))))

  def p_reduce_and(self, eqn, ins, p, av):
    return self._reduce(ins[0], p['axes'], av[0], lambda r, b: t.forall(r, b))

  def p_reduce_or(self, eqn, ins, p, av):
    return self._reduce(ins[0], p['axes'], av[0], lambda r, b: t.exists(r, b))

  def p_reduce_prod(self, eqn, ins, p, av):
    k = kind(ins[0].dtype)

    def red(r, b):
      if not const_all(r): raise Unsupported('product over symbolic dimension')
      out = X(R(1)) if k == 'R' else I(1)
      for ii in itertools.product(*[range(int(const_val(d))) for d in r]):
        e = b([I(i) for i in ii])
        out = xmul(out, e) if k == 'R' else pmul(out, e)
      return out
    return self._reduce(ins[0], p['axes'], av[0], red)

  def p_cumsum(self, eqn, ins, p, av, op='add'):
    a = ins[0]; ax = p['axis']; rev = p['reverse']; k = kind(a.dtype)
    n = const_val(a.shape[ax])
    if n is None: raise Unsupported('cumulative op over symbolic dimension')
    n = int(n)
    comb = {('R', 'add'): xadd, ('R', 'mul'): xmul, ('I', 'add'): padd, ('I', 'mul'): pmul,
            ('R', 'max'): xmax, ('I', 'max'): t.tmax, ('R', 'min'): xmin, ('I', 'min'): t.tmin}[(k, op)]

    def at(idx, j):
      ii = list(idx); ii[ax] = I(j); return a(ii)

    def f(idx):
      c = const_val(idx[ax])
      def upto(j):
        rngj = range(j, n) if rev else range(0, j + 1)
        r = None
        for q in (reversed(list(rngj)) if rev else rngj):
          r = at(idx, q) if r is None else comb(r, at(idx, q))
        return r
      if c is not None: return upto(int(c))
      r = upto(n - 1)
      for j in range(n - 2, -1, -1): r = eite(k, t.eq(idx[ax], I(j)), upto(j), r)
      return r
    return SArr(a.shape, av[0].dtype, f)

  def p_cumprod(self, eqn, ins, p, av): return self.p_cumsum(eqn, ins, p, av, 'mul')
  def p_cummax(self, eqn, ins, p, av): return self.p_cumsum(eqn, ins, p, av, 'max')
  def p_cummin(self, eqn, ins, p, av): return self.p_cumsum(eqn, ins, p, av, 'min')

  def p_argmax(self, eqn, ins, p, av, neg=False):
    raise Unsupported('argmax')

  def p_dot_general(self, eqn, ins, p, av):
    a, b = ins
    (lc, rc), (lb, rb) = p['dimension_numbers']
    ka = kind(a.dtype)
    lfree = [d for d in range(len(a.shape)) if d not in lc and d not in lb]
    rfree = [d for d in range(len(b.shape)) if d not in rc and d not in rb]
    rng = [a.shape[d] for d in lc]

    def f(idx):
      nb = len(lb)
      bi = idx[:nb]; li = idx[nb:nb + len(lfree)]; ri = idx[nb + len(lfree):]

      def body(fr):
        ai = [None] * len(a.shape); bj = [None] * len(b.shape)
        for d, x in zip(lb, bi): ai[d] = x
        for d, x in zip(rb, bi): bj[d] = x
        for d, x in zip(lc, fr): ai[d] = x
        for d, x in zip(rc, fr): bj[d] = x
        for d, x in zip(lfree, li): ai[d] = x
        for d, x in zip(rfree, ri): bj[d] = x
        x, y = a(ai), b(bj)
        kb = kind(b.dtype)
        if kind(av[0].dtype) == 'R':
          x = x if ka == 'R' else convert(x, a.dtype, av[0].dtype)
          y = y if kb == 'R' else convert(y, b.dtype, av[0].dtype)
          return xmul(x, y)
        if ka == 'B': x = t.b2i(x)
        if kb == 'B': y = t.b2i(y)
        return pmul(x, y)
      if not rng: return body([])
      return sum_elems(kind(av[0].dtype), rng, body)
    return SArr(shape_terms(av[0].shape), av[0].dtype, f)

  # -- control flow
  def p_cond(self, eqn, ins, p, av):
    ix, ops = ins[0], ins[1:]
    brs = p['branches']
    c = ix(())
    if kind(ix.dtype) == 'B': c = t.b2i(c)
    cv = const_val(c)
    if cv is not None:
      j = brs[max(0, min(len(brs) - 1, int(cv)))]
      return self.eval_jaxpr(j.jaxpr, [self.const(x) for x in j.consts], ops)
    outs = [self.eval_jaxpr(j.jaxpr, [self.const(x) for x in j.consts], ops) for j in brs]
    conds = []
    if len(brs) == 2: conds = [lnot(t.le(I(1), c))]
    else:
      for n in range(len(brs) - 1): conds.append(t.le(c, I(n)))
    res = []
    for n, a in enumerate(av):
      k = kind(a.dtype)

      def f(idx, n=n, k=k):
        r = outs[-1][n](idx)
        for q in range(len(brs) - 2, -1, -1):
          r = eite(k, conds[q], outs[q][n](idx), r)
        return r
      res.append(SArr(shape_terms(a.shape), a.dtype, f))
    return res

  def p_while(self, eqn, ins, p, av):
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    cj, bj = p['cond_jaxpr'], p['body_jaxpr']
    cc, bc, carry = ins[:nc], ins[nc:nc + nb], ins[nc + nb:]
    cond = lambda cr: self.eval_jaxpr(cj.jaxpr, [self.const(x) for x in cj.consts], cc + cr)[0](())
    body = lambda cr: self.eval_jaxpr(bj.jaxpr, [self.const(x) for x in bj.consts], bc + cr)
    if self.while_hook is not None:
      r = self.while_hook(self, cond, body, carry, av)
      if r is not None: return r
    for _ in range(64):
      c = cond(list(carry))
      if c is FALSE: return list(carry)
      if c is not TRUE: raise Unsupported('while loop without invariant')
      carry = body(list(carry))
    raise Unsupported('while loop too long')

  def p_scan(self, eqn, ins, p, av):
    n = p['length']; nc, ncar = p['num_consts'], p['num_carry']
    j = p['jaxpr']; rev = p['reverse']
    if not isinstance(n, int) or n > 64: raise Unsupported('scan length')
    consts, carry, xs = ins[:nc], ins[nc:nc + ncar], ins[nc + ncar:]
    ys = [None] * n
    for i in (reversed(range(n)) if rev else range(n)):
      xi = [SArr(x.shape[1:], x.dtype, lambda idx, x=x, i=i: x((I(i),) + tuple(idx))) for x in xs]
      out = self.eval_jaxpr(j.jaxpr, [self.const(c) for c in j.consts], consts + list(carry) + xi)
      carry = out[:ncar]; ys[i] = out[ncar:]
    res = list(carry)
    for m, a in enumerate(av[ncar:]):
      k = kind(a.dtype)

      def f(idx, m=m, k=k):
        return pick(idx[:1], (n,), lambda ii: ys[ii[0]][m](tuple(idx[1:])), k)
      res.append(SArr(shape_terms(a.shape), a.dtype, f))
    return res

  # -- random keys
  def p_random_wrap(self, eqn, ins, p, av):
    a = ins[0]
    return SArr(a.shape[:-1], av[0].dtype, lambda idx: k_wrap(a(tuple(idx) + (I(0),)), a(tuple(idx) + (I(1),))))

  def p_random_unwrap(self, eqn, ins, p, av):
    a = ins[0]
    return SArr(shape_terms(av[0].shape), av[0].dtype, lambda idx: k_unwrap(a(idx[:-1]), idx[-1]))

  def p_random_seed(self, eqn, ins, p, av):
    a = ins[0]
    return SArr(a.shape, av[0].dtype, lambda idx: t.mk('seed', 'K', a(idx)))

  def p_random_split(self, eqn, ins, p, av):
    a = ins[0]
    nk = len(a.shape)
    n = shape_terms(p['shape'] if 'shape' in p else (p['count'],))
    return SArr(shape_terms(av[0].shape), av[0].dtype,
                lambda idx: klift(a(idx[:nk]), lambda k: t.mk('split', 'K', k, n, tuple(idx[nk:]))))

  def p_random_fold_in(self, eqn, ins, p, av):
    a, d = ins
    return SArr(shape_terms(av[0].shape), av[0].dtype, lambda idx: klift(a(idx), lambda k: t.mk('fold', 'K', k, d(idx))))

  def p_random_bits(self, eqn, ins, p, av):
    a = ins[0]; sh = shape_terms(p['shape']); nk = len(a.shape)

    def f(idx):
      kt = a(idx[:nk])
      if kt.k == 'kite': raise Unsupported('bits of conditional key')
      at = t.mk('fn', 'I', 'bits', kt, p['bit_width'], *sh, *idx[nk:])
      t.IRANGE[at] = int_range(av[0].dtype)
      return t.atom(at)
    return SArr(shape_terms(av[0].shape), av[0].dtype, f)

  # -- contract primitives
  def p_vp_sym(self, eqn, ins, p, av):
    nm = p['name']
    if nm not in self.inputs:
      if kind(av[0].dtype) == 'I' and 'rng' in p and p['rng'] is not None:
        t.IRANGE[nm] = p['rng']; t.EPOCH[0] += 1
      if p.get('fact') is not None:
        t.set_fact(nm, *p['fact'])
      self.inputs[nm] = sym_array(nm, av[0].shape, av[0].dtype, p.get('special', False))
    return self.inputs[nm]

  def p_vp_uf(self, eqn, ins, p, av):
    nm = p['name']; special = p['special']
    cache = {}

    def arrs():
      if 'a' not in cache: cache['a'] = tuple(lam_of(a) for a in ins)
      return cache['a']
    outs = []
    for n, a in enumerate(av):
      k = kind(a.dtype)

      def f(idx, n=n, k=k, a=a):
        aa = arrs()
        if k == 'R':
          v = t.mk_uf('R', '%s#%d' % (nm, n), aa, idx)
          if not special: return X(v)
          nan = t.mk_uf('B', '%s#%d!nan' % (nm, n), aa, idx)
          inf = t.mk_uf('B', '%s#%d!inf' % (nm, n), aa, idx)
          ng = t.mk_uf('B', '%s#%d!neg' % (nm, n), aa, idx)
          return X(v, nan, land(lnot(nan), inf, lnot(ng)), land(lnot(nan), inf, ng))
        v = t.mk_uf(k, '%s#%d' % (nm, n), aa, idx)
        if k == 'I': t.IRANGE[t.as_atom(v)] = int_range(a.dtype)
        return v
      outs.append(SArr(shape_terms(a.shape), a.dtype, f))
    return outs


  def p_vp_smooth(self, eqn, ins, p, av):
    nb, der = p['nb'], p['der']
    ranks = [len(a.shape) - nb for a in ins]
    name = '%s@%s' % (p['name'], ','.join(map(str, der)))
    pos, groups = 0, {}
    for i in der:
      groups.setdefault(i, []).append(tuple(range(pos, pos + ranks[i]))); pos += ranks[i]
    t.SYM[name] = [g for g in groups.values() if len(g) > 1 and g[0]]

    def f(idx):
      b, rest = list(idx[:nb]), idx[nb:]
      aa = tuple(lam_of(SArr(a.shape[nb:], a.dtype, lambda i, a=a: a(b + list(i)))) for a in ins)
      return X(t.mk_uf('R', name, aa, rest))
    return [SArr(shape_terms(av[0].shape), av[0].dtype, f)]


def klift(k, f):
  if k.k == 'kite': return t.mk('kite', 'K', k.a[0], klift(k.a[1], f), klift(k.a[2], f))
  return f(k)


def lam_of(a):
  frs = t.ranged(a.shape)
  e = a(frs)
  k = kind(a.dtype)
  if k == 'R':
    if e.plain(): bodies = [e.v]
    else: bodies = [ite(e.special(), R(0), e.v), e.nan, e.pi, e.ni]
    if len(bodies) == 1: bodies = [e.v, FALSE, FALSE, FALSE]
  else: bodies = [e]
  return t.lam(a.shape, frs, bodies)


def lit_array(v):
  aval = v.aval
  val = v.val
  e = const_elem(val, aval.dtype)
  return SArr((), aval.dtype, lambda idx: e)


def const_all(shape): return all(const_val(d) is not None for d in shape)


def index_elem(a, ii):
  """Element at symbolic index; literal-shaped small arrays get case analysis if needed."""
  return a(ii)


def reshape(a, nsh, dtype):
  osh = a.shape
  if osh == nsh: return SArr(nsh, dtype, a)
  # strip common prefix/suffix and unit dimensions
  o = [(d, n) for n, d in enumerate(osh) if const_val(d) != 1]
  nn = [(d, n) for n, d in enumerate(nsh) if const_val(d) != 1]
  if [d for d, _ in o] == [d for d, _ in nn]:
    def f(idx):
      ii = [I(0)] * len(osh)
      for (_, i), (_, j) in zip(o, nn): ii[i] = idx[j]
      return a(ii)
    return SArr(nsh, dtype, f)
  # greedy grouping of factors
  groups = []
  i = j = 0
  while i < len(o) or j < len(nn):
    po, pn = I(1), I(1)
    gi, gj = [], []
    if i < len(o): po = o[i][0]; gi.append(o[i][1]); i += 1
    if j < len(nn): pn = nn[j][0]; gj.append(nn[j][1]); j += 1
    guard = 0
    while po is not pn:
      guard += 1
      if guard > 40: raise Unsupported('reshape %s -> %s' % (osh, nsh))
      co, cn = const_val(po), const_val(pn)
      adv_o = (co is not None and cn is not None and co < cn) or _divides(po, pn)
      if adv_o and i < len(o): po = pmul(po, o[i][0]); gi.append(o[i][1]); i += 1
      elif j < len(nn): pn = pmul(pn, nn[j][0]); gj.append(nn[j][1]); j += 1
      elif i < len(o): po = pmul(po, o[i][0]); gi.append(o[i][1]); i += 1
      else: raise Unsupported('reshape %s -> %s' % (osh, nsh))
    groups.append((gi, gj))

  def f(idx):
    ii = [I(0)] * len(osh)
    for gi, gj in groups:
      if len(gi) == 1 and len(gj) == 1:
        ii[gi[0]] = idx[gj[0]]
        continue
      lin = I(0)
      for j in gj: lin = padd(pmul(lin, nsh[j]), idx[j])
      if len(gi) == 1: ii[gi[0]] = lin; continue
      rem = lin
      for n, i in enumerate(gi):
        stride = I(1)
        for q in gi[n + 1:]: stride = pmul(stride, osh[q])
        if n == len(gi) - 1: ii[i] = rem
        else:
          qv = t.idiv(rem, stride)
          ii[i] = qv
          rem = psub(rem, pmul(qv, stride))
    return a(ii)
  return SArr(nsh, dtype, f)


def _divides(p, q):
  """p is a proper monomial factor of q."""
  if len(p.a[0]) != 1 or len(q.a[0]) != 1: return False
  (m1, c1), (m2, c2) = p.a[0][0], q.a[0][0]
  d2 = dict(m2)
  return all(d2.get(a, 0) >= e for a, e in m1) and c2 % c1 == 0 and p is not q
