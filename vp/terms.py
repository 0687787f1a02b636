"""Hash-consed logical terms with a polynomial normal form.

Sorts: 'R' (mathematical reals), 'I' (mathematical integers), 'B' (booleans).
R and I terms are polynomials (kind 'poly') over atoms with rational
coefficients; exponents of real atoms may be negative, with the total
convention inv(0) = 0 (as in Lean/Mathlib), under which inv is multiplicative
and every rewriting done here is an unconditional identity.
"""
from fractions import Fraction
import itertools

_tab = {}
_ctr = itertools.count()
_fresh = itertools.count()
EPOCH = [0]
FACTS = {}        # atom -> (can_neg, can_zero, can_pos)
SYM = {}          # name of an uninterpreted function -> groups of interchangeable index blocks
SQUARES = {}      # poly (content-normalised) that is a square or a sum of squares
BOUND = {}        # non-constant part of a polynomial (content-normalised) -> (lower bound, strict)
KNOWN = {}        # poly (content-normalised) -> sign triple
IRANGE = {}       # int atom -> (lo, hi) or None bounds
NZ_ANY = (True, True, True)
BIG = 600


class TermTooBig(Exception):
  pass


class T:
  __slots__ = ('k', 'a', 'id', 'sort', '_fv', '_sg', '_se', '_mb', '_cs')

  def __init__(self, k, sort, a):
    self.k = k; self.sort = sort; self.a = a; self.id = next(_ctr)
    self._fv = None; self._sg = None; self._se = -1; self._mb = None; self._cs = None

  def __repr__(self):
    return show(self)


def reset():
  _tab.clear(); FACTS.clear(); KNOWN.clear(); BOUND.clear(); SQUARES.clear(); IRANGE.clear(); IVR.clear(); EPOCH[0] += 1
  global TRUE, FALSE
  _tab[('true', 'B')] = TRUE
  _tab[('false', 'B')] = FALSE


def mk(k, sort, *a):
  key = (k, sort) + a
  t = _tab.get(key)
  if t is None:
    t = T(k, sort, a); _tab[key] = t
  return t


TRUE = mk('true', 'B')
FALSE = mk('false', 'B')


def blit(b):
  return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials
def _monokey(m):
  return tuple((a.id, e) for a, e in m)


def P(sort, d):
  items = [(m, c) for m, c in d.items() if c]
  if len(items) > 1:
    items.sort(key=lambda kv: _monokey(kv[0]))
  if len(items) > 20000:
    raise TermTooBig()
  return mk('poly', sort, tuple(items))


def num(sort, c):
  c = Fraction(c)
  if sort == 'I': assert c.denominator == 1, c
  return mk('poly', sort, (((), c),) if c else ())


def R(c): return num('R', c)
def I(c): return num('I', c)


def atom(t):
  """Wraps an atom (R/I) as a polynomial."""
  return mk('poly', t.sort, ((((t, 1),), Fraction(1)),))


def const_val(p):
  """Fraction if p is a numeral else None."""
  if p.k != 'poly': return None
  if not p.a[0]: return Fraction(0)
  if len(p.a[0]) == 1 and p.a[0][0][0] == (): return p.a[0][0][1]
  return None


def as_atom(p):
  if len(p.a[0]) == 1:
    m, c = p.a[0][0]
    if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
  return None


def var(sort, name):
  t = mk('var', sort, name)
  return t if sort == 'B' else atom(t)


def ivar(name):
  return atom(mk('ivar', 'I', name))


def fresh_ivar(prefix='$'):
  return ivar('%s%d' % (prefix, next(_fresh)))


def ranged(ranges):
  """Fresh index variables of the given ranges."""
  out = []
  for d in ranges:
    f = fresh_ivar(); out.append(f)
    IVR[as_atom(f)] = d
  return out


def app(sort, name, idx):
  """Element idx of the symbolic array `name`."""
  if not idx: return var(sort, name)
  t = mk('app', sort, name, tuple(idx))
  return t if sort == 'B' else atom(t)


def padd(p, q):
  if not p.a[0]: return q
  if not q.a[0]: return p
  d = dict(p.a[0])
  for m, c in q.a[0]:
    d[m] = d.get(m, 0) + c
  return P(p.sort, d)


def psum(sort, ps):
  d = {}
  for p in ps:
    for m, c in p.a[0]:
      d[m] = d.get(m, 0) + c
  return P(sort, d)


def pscale(p, c):
  c = Fraction(c)
  if c == 1: return p
  return P(p.sort, {m: k * c for m, k in p.a[0]})


def pneg(p): return pscale(p, -1)
def psub(p, q): return padd(p, pneg(q))


def _nz(atomt):
  """Indicator [atom != 0]."""
  return mk('nz', 'R', atomt)


def _mono_mul(sort, m1, m2):
  """Product of two monomials -> (extra polys list, monomial)."""
  if not m1: return m2, ()
  if not m2: return m1, ()
  d = {}
  nzs = []
  for a, e in m1: d[a] = e
  for a, e in m2:
    if a in d:
      e0 = d[a]
      s = e0 + e
      if s == 0:
        del d[a]
        if not nonzero_atom(a): nzs.append(_nz(a))
      else:
        d[a] = s
    else:
      d[a] = e
  for z in nzs:
    d[z] = 1
  for a in [a for a in d if a.k == 'nz']:
    if a.a[0] in d: del d[a]
    else: d[a] = 1
  extra = ()
  # even powers of abs / sqrt of non-negative collapse
  for a in list(d):
    if a.k == 'fn':
      e = d[a]
      f = a.a[0]
      if f == 'abs' and (e >= 2 or e <= -2):
        h = abs(e) // 2 * 2
        s = 1 if e > 0 else -1
        r = e - s * h
        if r: d[a] = r
        else: del d[a]
        extra += ((a.a[1], s * h),)
      elif f == 'sqrt' and (e >= 2 or e <= -2) and not sign(a.a[1])[0]:
        h = abs(e) // 2
        s = 1 if e > 0 else -1
        r = e - s * 2 * h
        if r: d[a] = r
        else: del d[a]
        extra += ((a.a[1], s * h),)
  return tuple(sorted(d.items(), key=lambda kv: kv[0].id)), extra


def _share(p):
  """Wraps a big polynomial as an opaque definition atom."""
  return atom(mk('def', p.sort, p))


def pmul(p, q):
  sort = p.sort
  assert sort == q.sort, (p, q)
  a, b = p.a[0], q.a[0]
  if not a or not b: return num(sort, 0)
  if len(a) * len(b) > BIG:
    if len(a) >= len(b): p = _share(p)
    else: q = _share(q)
    a, b = p.a[0], q.a[0]
  d = {}
  extras = []
  for m1, c1 in a:
    for m2, c2 in b:
      m, ex = _mono_mul(sort, m1, m2)
      if ex:
        r = P(sort, {m: c1 * c2})
        for base, e in ex:
          r = pmul(r, ppow(base, e) if e > 0 else ppow(pinv(base), -e))
        extras.append(r)
      else:
        d[m] = d.get(m, 0) + c1 * c2
  r = P(sort, d)
  for e in extras: r = padd(r, e)
  if sort == 'R' and len(r.a[0]) > 1:
    if p is q: square(r)
    elif SQUARES:
      for x, y in ((p, q), (q, p)):
        if len(y.a[0]) == 1 and y.a[0][0][0] and _is_square(x) and not sign(y)[0]: square(r)
  return r


def _is_square(p): return len(p.a[0]) > 1 and SQUARES.get(_knorm(p)[0]) is not None


def _square_part(p, depth=2):
  """Sign of c*q + r for a known square q: both parts have to agree."""
  d = dict(p.a[0])
  n = 0
  for q in list(SQUARES):
    if q.sort != 'R' or len(q.a[0]) > len(d) or q.a[0][0][0] not in d and q.a[0][-1][0] not in d: continue
    if not all(m in d for m, _ in q.a[0]): continue
    n += 1
    if n > 6: break
    k = d[q.a[0][0][0]] / q.a[0][0][1]
    r = psub(p, pscale(q, k))
    s = sign(r) if depth == 2 else NZ_ANY
    if k > 0 and not s[0]: return (False, s[1], True)
    if k < 0 and not s[2]: return (True, s[1], False)
  return NZ_ANY


def square(r):
  """Note that r is nonnegative whatever the values of its atoms."""
  if len(r.a[0]) < 2: return
  SQUARES[_knorm(r)[0]] = (False, True, True)
  r._se = -1


def ppow(p, n):
  assert n >= 0
  r = num(p.sort, 1)
  b = p
  while n:
    if n & 1: r = pmul(r, b)
    n >>= 1
    if n: b = pmul(b, b)
  return r


def monic(p):
  """p = c * m * q with c rational != 0, m monomial content, q primitive."""
  items = p.a[0]
  c = items[0][1]
  common = dict(items[0][0])
  for m, _ in items[1:]:
    md = dict(m)
    for a in list(common):
      e = md.get(a)
      if e is None or (e > 0) != (common[a] > 0) or a.k == 'nz':
        del common[a]
      else:
        common[a] = min(common[a], e) if e > 0 else max(common[a], e)
    if not common: break
  return c, common


def pinv(p):
  """Total multiplicative inverse, inv(0)=0."""
  assert p.sort == 'R'
  items = p.a[0]
  if not items: return p
  if len(items) == 1:
    m, c = items[0]
    return P('R', {tuple((a, (-e if a.k != 'nz' else e)) for a, e in m): 1 / c})
  c, common = monic(p)
  # p = c*mono*q
  if common:
    inv_m = P('R', {tuple(sorted(((a, -e) for a, e in common.items()), key=lambda kv: kv[0].id)): Fraction(1)})
    d = {}
    for m, k in items:
      md = dict(m)
      for a, e in common.items():
        md[a] -= e
        if md[a] == 0: del md[a]
      key = tuple(sorted(md.items(), key=lambda kv: kv[0].id))
      d[key] = d.get(key, 0) + k / c
    q = P('R', d)
    return pscale(pmul(inv_m, atom_pow(_sumatom(q), -1)), 1 / c)
  q = pscale(p, 1 / c)
  return pscale(atom_pow(_sumatom(q), -1), 1 / c)


def _sumatom(q):
  """An atom standing for the (monic, multi-term) polynomial q."""
  return mk('psum', 'R', q)


def atom_pow(a, e):
  return P('R', {((a, e),): Fraction(1)})


def pdiv(p, q): return pmul(p, pinv(q))


# psum atoms only ever occur with negative exponents or nz(); a positive
# exponent is expanded back into the polynomial.
_orig_mono_mul = _mono_mul


def _mono_mul(sort, m1, m2):  # noqa: F811
  m, ex = _orig_mono_mul(sort, m1, m2)
  pos = [(a, e) for a, e in m if a.k == 'psum' and e > 0]
  if pos:
    m = tuple((a, e) for a, e in m if not (a.k == 'psum' and e > 0))
    ex = ex + tuple((a.a[0], e) for a, e in pos)
  return m, ex


# ---------------------------------------------------------------- signs
def _mul_sign(s, t):
  n1, z1, p1 = s; n2, z2, p2 = t
  return ((n1 and p2) or (p1 and n2), z1 or z2, (n1 and n2) or (p1 and p2))


def atom_sign(a):
  if a._se == EPOCH[0]: return a._sg
  s = _atom_sign(a)
  a._sg = s; a._se = EPOCH[0]
  return s


def _atom_sign(a):
  f = FACTS.get(a)
  if f is not None: return f
  k = a.k
  if k == 'fn':
    n = a.a[0]
    if n == 'exp': return (False, False, True)
    if n == 'abs':
      s = sign(a.a[1])
      return (False, s[1], s[0] or s[2])
    if n == 'sqrt':
      s = sign(a.a[1])
      return (False, s[1] or s[0], s[2])
    if n == 'max':
      s, t = sign(a.a[1]), sign(a.a[2])
      return (s[0] and t[0], (s[1] and (t[0] or t[1])) or (t[1] and (s[0] or s[1])), s[2] or t[2])
    if n == 'pow':
      s = sign(a.a[1])
      if not s[0] and not s[1]: return (False, False, True)
      if not s[0]: return (False, True, True)
    if n == 'pi': return (False, False, True)
    if n == 'uniform': return (False, True, True)
    if n == 'log':
      s = sign(psub(num('R', 1), a.a[1]))
      if not s[0]: return (True, s[1], False)
      if not s[2]: return (False, s[1], True)
    return NZ_ANY
  if k == 'ite':
    s, t = sign(a.a[1]), sign(a.a[2])
    return tuple(x or y for x, y in zip(s, t))
  if k == 'red':
    op = a.a[0]
    s = sign(a.a[2])
    if op == 'sum':
      if not s[0]: return s
      if not s[2]: return s
      return NZ_ANY
    if op == 'max': return s
    return NZ_ANY
  if k == 'i2r':
    return atom_sign(a.a[0])
  if k == 'nz':
    s = atom_sign(a.a[0])
    return (False, s[1], s[0] or s[2])
  if k in ('psum', 'def'):
    return sign(a.a[0])
  if k in ('app',):
    # facts for whole arrays are keyed by name
    f = FACTS.get(a.a[0])
    if f is not None: return f
  if k == 'var':
    f = FACTS.get(a.a[0])
    if f is not None: return f
  if a.sort == 'I':
    lo, hi = irange_atom(a)
    return (lo is None or lo < 0, (lo is None or lo <= 0) and (hi is None or hi >= 0), hi is None or hi > 0)
  return NZ_ANY


def nonzero_atom(a):
  return not atom_sign(a)[1]


def mono_sign(m):
  s = (False, False, True)
  for a, e in m:
    t = atom_sign(a)
    if e % 2 == 0: t = (False, t[1], t[0] or t[2])
    s = _mul_sign(s, t)
  return s


def _knorm(p):
  """content-normalise for KNOWN lookups -> (poly, flipped)."""
  if not p.a[0]: return p, False
  c = p.a[0][0][1]
  return pscale(p, 1 / abs(c)), False


def sign(p):
  """(can_neg, can_zero, can_pos) of a polynomial."""
  if p._se == EPOCH[0]: return p._sg
  s = _sign(p)
  p._sg = s; p._se = EPOCH[0]
  return s


def _bsplit(p):
  """p = f * (q + k) with q without constant, content-normalised, f > 0."""
  k = Fraction(0)
  for m, c in p.a[0]:
    if not m: k = c
  q = psub(p, num(p.sort, k)) if k else p
  if not q.a[0]: return None, None
  f = abs(q.a[0][0][1])
  return (pscale(q, 1 / f), k / f) if f != 1 else (q, k)


def _bound_sign(p):
  """Sign of p from a recorded bound on the same combination with another constant."""
  q, k = _bsplit(p)
  if q is None: return None
  lo, hi = BOUND.get(q), BOUND.get(pneg(q))
  if lo is None and hi is None: return None
  neg = zero = pos = True
  if lo is not None:
    v = lo[0] + k
    if v > 0 or v == 0 and lo[1]: neg = zero = False
    elif v == 0: neg = False
  if hi is not None:
    v = hi[0] - k
    if v > 0 or v == 0 and hi[1]: pos = zero = False
    elif v == 0: pos = False
  return None if neg and zero and pos or not (neg or zero or pos) else (neg, zero, pos)


def _sign(p):
  items = p.a[0]
  if not items: return (False, True, False)
  if KNOWN or SQUARES:
    q, _ = _knorm(p)
    s = KNOWN.get(q) or SQUARES.get(q)
    if s is not None: return s
    s = KNOWN.get(pneg(q)) or SQUARES.get(pneg(q))
    if s is not None: return (s[2], s[1], s[0])
  s = _bound_sign(p) if BOUND and len(items) > 1 else None
  if s is not None: return s
  if len(items) == 2 and p.sort == 'R':
    r = _one_minus_pow(items)
    if r is not None: return r
  neg = pos = False
  allzero = True
  for m, c in items:
    s = mono_sign(m)
    if c < 0: s = (s[2], s[1], s[0])
    neg |= s[0]; pos |= s[2]
    allzero &= s[1]
  if not neg and not pos: return (False, True, False)
  if not neg or not pos:
    zero = allzero
    r = (neg, zero, pos)
  else:
    r = NZ_ANY
    if p.sort == 'I':
      lo, hi = irange(p)
      r = (lo is None or lo < 0, (lo is None or lo <= 0) and (hi is None or hi >= 0), hi is None or hi > 0)
    elif 2 <= len(items) <= 40:
      r = _pair_sign(items)
      if r is NZ_ANY and SQUARES: r = _square_part(p)
  return r


def _pair_sign(items):
  """Groups c*M - c*b*M as c*M*(1-b) for atoms b known to be at most 1."""
  cands = {}
  for m, c in items:
    for a, e in m:
      if e == 1 and a not in cands and a.sort == 'R' and (a.k in ('var', 'app') or (a.k == 'fn' and a.a[0] == 'pow')):
        s1 = None
        if not len(items) == 2 or () not in dict(items):
          s1 = sign(P('R', {(): Fraction(1), ((a, 1),): Fraction(-1)}))
        cands[a] = s1 if s1 is not None and not s1[0] else None
  cands = {a: s for a, s in cands.items() if s}
  if not cands: return NZ_ANY
  d = dict(items)
  tot = []
  for m in list(d):
    for b, e in m:
      if e != 1 or b not in cands or m not in d: continue
      M = tuple(x for x in m if x[0] is not b)
      c, k = d[m], d.get(M)
      if k is None or (k > 0) == (c > 0): continue
      q = min(abs(k), abs(c))
      s = _mul_sign(mono_sign(M), cands[b])
      if k < 0: s = (s[2], s[1], s[0])
      tot.append(s)
      sg = 1 if k > 0 else -1
      for key, val in ((M, k - sg * q), (m, c + sg * q)):
        if val: d[key] = val
        else: d.pop(key, None)
  if not tot: return NZ_ANY
  for m, c in d.items():
    s = mono_sign(m)
    tot.append(s if c > 0 else (s[2], s[1], s[0]))
  neg = any(s[0] for s in tot); pos = any(s[2] for s in tot)
  if neg and pos: return NZ_ANY
  return (neg, all(s[1] for s in tot), pos)


def _one_minus_pow(items):
  """Sign of c*(1 - pow(x, y)) for 0 <= x < 1 and y > 0."""
  (m1, c1), (m2, c2) = items
  if m1: (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
  if m1 or c1 != -c2 or len(m2) != 1 or m2[0][1] != 1: return None
  a = m2[0][0]
  if a.k != 'fn': return None
  if a.a[0] == 'uniform': return (False, False, True) if c1 > 0 else (True, False, False)
  if a.a[0] != 'pow': return None
  x, y = a.a[1], a.a[2]
  if sign(x)[0]: return None
  sy = sign(y)
  if sy[0]: return None
  s1 = sign(psub(num('R', 1), x))
  if s1[0]: return None
  r = (False, s1[1] or sy[1], True)
  return r if c1 > 0 else (r[2], r[1], r[0])


def irange_atom(a):
  r = IRANGE.get(a)
  if r is None and a.k in ('app', 'var'): r = IRANGE.get(a.a[0])
  if r is not None: return r
  if a.k == 'ite':
    l1, h1 = irange(a.a[1]); l2, h2 = irange(a.a[2])
    return (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
  if a.k == 'fn':
    n = a.a[0]
    if n == 'wrap':
      return a.a[1], a.a[2]
    if n == 'imod':
      c = const_val(a.a[2])
      if c is not None and c > 0: return (0, int(c) - 1)
      if not sign(a.a[2])[0]: return (0, irange(a.a[2])[1])
    if n == 'idiv':
      lo, hi = irange(a.a[1])
      if lo is not None and lo >= 0 and not sign(a.a[2])[0]: return (0, hi)
    if n == 'max':
      l1, h1 = irange(a.a[1]); l2, h2 = irange(a.a[2])
      los = [x for x in (l1, l2) if x is not None]
      return (max(los) if los else None, None if h1 is None or h2 is None else max(h1, h2))
    if n == 'abs':
      lo, hi = irange(a.a[1])
      return (0, None if lo is None or hi is None else max(abs(lo), abs(hi)))
  if a.k == 'red' and a.a[0] == 'max': return irange(a.a[2])
  if a.k == 'ivar':
    d = IVR.get(a)
    c = None if d is None else const_val(d)
    return (0, 2**31 - 2 if c is None else int(c) - 1)   # array dimensions fit in int32
  return (None, None)


def irange(p):
  lo = hi = Fraction(0)
  for m, c in p.a[0]:
    l = h = Fraction(1)
    for a, e in m:
      al, ah = irange_atom(a)
      for _ in range(e):
        cands = []
        if l is not None and h is not None and al is not None and ah is not None:
          cands = [l * al, l * ah, h * al, h * ah]
          l, h = min(cands), max(cands)
        elif l is not None and l >= 0 and al is not None and al >= 0:
          l, h = l * al, (None if h is None or ah is None else h * ah)
        else:
          l = h = None
    if c < 0: l, h = h, l
    lo = None if lo is None or l is None else lo + c * l
    hi = None if hi is None or h is None else hi + c * h
  return (None if lo is None else lo, None if hi is None else hi)


# ---------------------------------------------------------------- booleans
def lnot(b):
  if b is TRUE: return FALSE
  if b is FALSE: return TRUE
  if b.k == 'not': return b.a[0]
  if b.k == 'gt':   # not (p > 0)  ==  -p >= 0
    return ge0(pneg(b.a[0]))
  if b.k == 'ge':
    return gt0(pneg(b.a[0]))
  return mk('not', 'B', b)


def land(*bs):
  s = {}
  stack = list(bs)
  while stack:
    b = stack.pop()
    if b is TRUE: continue
    if b is FALSE: return FALSE
    if b.k == 'and': stack.extend(b.a); continue
    s[b.id] = b
  for b in s.values():
    if lnot(b).id in s: return FALSE
  if not s: return TRUE
  if len(s) == 1: return next(iter(s.values()))
  return mk('and', 'B', *sorted(s.values(), key=lambda t: t.id))


def lor(*bs):
  s = {}
  stack = list(bs)
  while stack:
    b = stack.pop()
    if b is FALSE: continue
    if b is TRUE: return TRUE
    if b.k == 'or': stack.extend(b.a); continue
    s[b.id] = b
  for b in s.values():
    if lnot(b).id in s: return TRUE
  if not s: return FALSE
  if len(s) == 1: return next(iter(s.values()))
  return mk('or', 'B', *sorted(s.values(), key=lambda t: t.id))


def implies(a, b): return lor(lnot(a), b)


def iff(a, b):
  if a is b: return TRUE
  if a is TRUE: return b
  if b is TRUE: return a
  if a is FALSE: return lnot(b)
  if b is FALSE: return lnot(a)
  if lnot(a) is b: return FALSE
  if a.id > b.id: a, b = b, a
  return mk('iff', 'B', a, b)


def lxor(a, b): return lnot(iff(a, b))


def bite(c, a, b):
  if c is TRUE: return a
  if c is FALSE: return b
  if a is b: return a
  return lor(land(c, a), land(lnot(c), b))


def _posnorm(p):
  """Divide by the positive content of the first coefficient."""
  c = abs(p.a[0][0][1])
  if p.sort == 'I':
    from math import gcd
    g = 0
    for _, k in p.a[0]: g = gcd(g, int(k))
    c = Fraction(g)
  return pscale(p, 1 / c) if c != 1 else p


def ge0(p):
  c = const_val(p)
  if c is not None: return blit(c >= 0)
  s = sign(p)
  if not s[0]: return TRUE
  if not s[1] and not s[2]: return FALSE
  r = _cmp_ite(p, ge0)
  if r is not None: return r
  p = _posnorm(p)
  if p.sort == 'I':
    # normalise  integer p>=0  <=>  p+1>0 ; keep 'ge' canonical
    return mk('ge', 'B', p)
  return mk('ge', 'B', p)


def gt0(p):
  if p.sort == 'I': return ge0(psub(p, I(1)))
  c = const_val(p)
  if c is not None: return blit(c > 0)
  s = sign(p)
  if not s[0] and not s[1]: return TRUE
  if not s[2]: return FALSE
  r = _cmp_ite(p, gt0)
  if r is not None: return r
  return mk('gt', 'B', _posnorm(p))


def eq0(p):
  c = const_val(p)
  if c is not None: return blit(c == 0)
  s = sign(p)
  if not s[1]: return FALSE
  if not s[0] and not s[2]: return TRUE
  r = _cmp_ite(p, eq0)
  if r is not None: return r
  c = p.a[0][0][1]
  if p.sort == 'I':
    p = _posnorm(p)
    if p.a[0][0][1] < 0: p = pneg(p)
  else:
    p = pscale(p, 1 / c)
  if len(p.a[0]) == 1 and p.sort == 'R':
    m, _ = p.a[0][0]
    if len(m) > 1 or (m and m[0][1] != 1):
      return lor(*[eq0_atom(a) for a, e in m])
    if m: return eq0_atom(m[0][0])
  return mk('eq', 'B', p)


def eq0_atom(a):
  if nonzero_atom(a): return FALSE
  if a.k == 'nz': return eq0_atom(a.a[0])
  if a.k == 'psum': return eq0(a.a[0])
  if a.k == 'fn' and a.a[0] == 'abs': return eq0(a.a[1])
  if a.k == 'fn' and a.a[0] == 'sqrt': return ge0(pneg(a.a[1]))
  if a.k == 'i2r': return eq0(atom(a.a[0]))
  return mk('eq', 'B', atom(a))


def _cmp_ite(p, cmp):
  """A comparison of c*ite(q, A, B) + rest: decided by the condition if a branch decides it."""
  if len(p.a[0]) > 4: return None
  hit = None
  for m, c in p.a[0]:
    for a, e in m:
      if a.k == 'ite':
        if hit is not None or len(m) > 1 or e > 1: return None
        hit = (m, c, a)
  if hit is None: return None
  m, c, a = hit
  rest = P(p.sort, {k: v for k, v in p.a[0] if k != m})
  x = cmp(padd(rest, pscale(a.a[1], c)))
  y = cmp(padd(rest, pscale(a.a[2], c)))
  if x in (TRUE, FALSE) or y in (TRUE, FALSE) or x is y: return bite(a.a[0], x, y)
  return None


def le(p, q): return ge0(psub(q, p))
def lt(p, q): return gt0(psub(q, p))
def eq(p, q): return TRUE if p is q else eq0(psub(p, q))


# ---------------------------------------------------------------- functions
def ite(c, a, b):
  if a.sort == 'B': return bite(c, a, b)
  if c is TRUE: return a
  if c is FALSE: return b
  if a is b: return a
  if c.k == 'not': c, a, b = c.a[0], b, a
  ca, cb = const_val(a), const_val(b)
  # ite(x==0-style) with equal branches under the condition: a with p:=0
  if c.k == 'eq':
    at = as_atom(c.a[0]) if c.a[0].k == 'poly' else None
    if at is not None:
      a = subst_atom(a, at, num(at.sort, 0))
      if a is b or subst_atom(b, at, num(at.sort, 0)) is a:
        return b
  # common part factoring: ite(c, r+a', r+b') = r + ite(c,a',b')
  if ca is None or cb is None:
    da, db = dict(a.a[0]), dict(b.a[0])
    common = {m: k for m, k in da.items() if db.get(m) == k}
    if common:
      r = P(a.sort, common)
      return padd(r, ite(c, psub(a, r), psub(b, r)))
  a = _ctx(a, c, True); b = _ctx(b, c, False)
  if a is b: return a
  # content normalisation: make the leading coefficient of first nonzero branch 1
  k = None
  for br in (a, b):
    if br.a[0]:
      k = br.a[0][0][1]; break
  if a.sort == 'R' and k not in (None, 1):
    return pscale(atom(mk('ite', a.sort, c, pscale(a, 1 / k), pscale(b, 1 / k))), k)
  if a.sort == 'I' and k is not None and k < 0:
    return pneg(atom(mk('ite', 'I', c, pneg(a), pneg(b))))
  return atom(mk('ite', a.sort, c, a, b))


_NOCS = frozenset()


def condset(t):
  """All ite conditions (and their literals) occurring anywhere in t."""
  if t._cs is not None: return t._cs
  r = set()
  k = t.k
  if k == 'ite':
    stack = [t.a[0]]
    while stack:
      b = stack.pop()
      r.add(b); r.add(lnot(b))
      if b.k in ('and', 'or', 'not', 'iff'): stack.extend(b.a)
  if k == 'poly':
    for m, _ in t.a[0]:
      for a, _e in m: r |= condset(a)
  else:
    stack = list(t.a)
    while stack:
      x = stack.pop()
      if isinstance(x, T): r |= condset(x)
      elif isinstance(x, tuple): stack.extend(x)
  r = frozenset(r) if r else _NOCS
  t._cs = r
  return r


def _litmap(lit, mp):
  """Consequences of lit as a substitution."""
  if lit.k == 'and':
    for x in lit.a: _litmap(x, mp)
  mp[lit] = TRUE; mp[lnot(lit)] = FALSE
  return mp


def _ctx(p, c, val):
  """Simplify p under c == val."""
  cs = condset(p)
  if not cs: return p
  mp = _litmap(c if val else lnot(c), {})
  if not any(x in cs for x in mp): return p
  return _subst(p, mp, {}, None)


def subst_atom(p, at, val):
  """Shallow: replace atom `at` in the monomials of p (not under functions)."""
  hit = False
  for m, c in p.a[0]:
    for a, e in m:
      if a is at: hit = True
  if not hit: return p
  r = num(p.sort, 0)
  for m, c in p.a[0]:
    q = P(p.sort, {tuple((a, e) for a, e in m if a is not at): c})
    for a, e in m:
      if a is at:
        q = pmul(q, ppow(val, e) if e > 0 else ppow(pinv(val), -e))
    r = padd(r, q)
  return r


def fabs(p):
  s = sign(p)
  if not s[0]: return p
  if not s[2]: return pneg(p)
  items = p.a[0]
  if len(items) == 1 and p.sort == 'R':
    m, c = items[0]
    r = R(abs(c))
    for a, e in m:
      if e % 2 == 0 or not atom_sign(a)[0]: r = pmul(r, atom_pow(a, e))
      else: r = pmul(r, atom_pow(mk('fn', 'R', 'abs', atom(a)), e))
    return r
  if items[0][1] < 0: p = pneg(p)
  if p.sort == 'R':
    c = p.a[0][0][1]
    return pscale(atom(mk('fn', p.sort, 'abs', pscale(p, 1 / c))), c)
  return atom(mk('fn', p.sort, 'abs', p))


def tmax(p, q):
  d = psub(p, q)
  s = sign(d)
  if not s[0]: return p
  if not s[2]: return q
  if p.id > q.id: p, q = q, p
  # positive common numeric content
  return atom(mk('fn', p.sort, 'max', p, q))


def tmin(p, q): return pneg(tmax(pneg(p), pneg(q)))


def _isqrt(fr):
  from math import isqrt
  n, d = fr.numerator, fr.denominator
  rn, rd = isqrt(n), isqrt(d)
  if rn * rn == n and rd * rd == d: return Fraction(rn, rd)
  return None


def _square_content(n):
  """largest s with s*s | n (small factors)."""
  s = 1
  f = 2
  while f * f <= n and f < 1000:
    while n % (f * f) == 0:
      n //= f * f; s *= f
    f += 1
  return s


def fsqrt(p):
  """Total square root, sqrt(x<0)=0."""
  s = sign(p)
  if not s[2]: return R(0)
  items = p.a[0]
  if len(items) == 1:
    m, c = items[0]
    if c > 0:
      out = R(1); rest = {}
      for a, e in m:
        if e % 2 == 0:
          out = pmul(out, fabs(atom_pow(a, e // 2)))
        elif not atom_sign(a)[0]:
          q, r = divmod(e, 2)
          # x^e = x^(2q) * x, x>=0 : sqrt = x^q * sqrt(x)
          if e > 0:
            if q: out = pmul(out, atom_pow(a, q))
            out = pmul(out, _sqrt_atom(a, 1))
          else:
            q = (-e) // 2
            if q: out = pmul(out, atom_pow(a, -q))
            out = pmul(out, _sqrt_atom(a, -1))
        else:
          rest[a] = e
      rc = _isqrt(c)
      if not rest and rc is not None: return pscale(out, rc)
      if rest and rc is not None and len(rest) < len(m):
        key = tuple(sorted(rest.items(), key=lambda kv: kv[0].id))
        return pscale(pmul(out, atom(mk('fn', 'R', 'sqrt', P('R', {key: Fraction(1)})))), rc)
      if not rest and m:
        return pmul(out, fsqrt(R(c)))
      if not m:
        n = c.numerator * c.denominator
        sc = _square_content(n)
        # sqrt(n/d)=sqrt(n*d)/d
        return pscale(atom(mk('fn', 'R', 'sqrt', R(n // (sc * sc)))), Fraction(sc, c.denominator))
  # numeric square content
  c = abs(items[0][1])
  rc = _isqrt(c)
  if rc is not None and c != 1:
    return pscale(fsqrt(pscale(p, 1 / c)), rc)
  # monomial square content
  k, common = monic(p)
  sq = {a: (e // 2 if e > 0 else -((-e) // 2)) for a, e in common.items() if abs(e) >= 2}
  sq = {a: e for a, e in sq.items() if e}
  if sq:
    out = R(1); d = {}
    for a, e in sq.items(): out = pmul(out, fabs(atom_pow(a, e)))
    for m, cc in items:
      md = dict(m)
      for a, e in sq.items():
        md[a] -= 2 * e
        if md[a] == 0:
          # a^(2e) in every term: indicator needed only if a may vanish; out carries |a|^e
          del md[a]
      key = tuple(sorted(md.items(), key=lambda kv: kv[0].id))
      d[key] = d.get(key, 0) + cc
    return pmul(out, fsqrt(P('R', d)))
  return atom(mk('fn', 'R', 'sqrt', p))


def _sqrt_atom(a, e):
  if a.k == 'psum': return atom_pow(mk('fn', 'R', 'sqrt', a.a[0]), e) if True else None
  if a.k == 'nz': return atom(a)
  return atom_pow(mk('fn', 'R', 'sqrt', atom(a)), e)


def fexp(p):
  r = R(1)
  for m, c in p.a[0]:
    if m == () or c.denominator != 1 or True:
      # exp(c*m) = exp(m/den)^num
      base = P('R', {m: Fraction(1, c.denominator)}) if m != () else R(Fraction(1, c.denominator))
      at = None
      if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'fn' and m[0][0].a[0] == 'log' and c.denominator == 1 and not sign(m[0][0].a[1])[0] and not sign(m[0][0].a[1])[1]:
        q = m[0][0].a[1]
        r = pmul(r, ppow(q, int(c)) if c > 0 else ppow(pinv(q), -int(c)))
        continue
      at = mk('fn', 'R', 'exp', base)
      r = pmul(r, atom_pow(at, c.numerator))
  return r


def flog(p):
  """log of p (meaningful for p>0)."""
  items = p.a[0]
  if len(items) == 1:
    m, c = items[0]
    if c > 0 and all(not atom_sign(a)[0] and not atom_sign(a)[1] for a, e in m):
      r = R(0)
      if c != 1: r = atom(mk('fn', 'R', 'log', R(c)))
      for a, e in m:
        if a.k == 'fn' and a.a[0] == 'exp': r = padd(r, pscale(a.a[1], e))
        elif a.k == 'psum': r = padd(r, pscale(flog(a.a[0]), e))
        elif a.k == 'fn' and a.a[0] == 'sqrt': r = padd(r, pscale(flog(a.a[1]), Fraction(e, 2)))
        elif a.k == 'fn' and a.a[0] == 'pow' and not any(sign(a.a[1])[:2]): r = padd(r, pscale(pmul(a.a[2], flog(a.a[1])), e))
        else: r = padd(r, pscale(atom(mk('fn', 'R', 'log', atom(a))), e))
      return r
  elif len(items) > 1:
    c, common = monic(p)
    pos = {a: e for a, e in common.items() if not atom_sign(a)[0] and not atom_sign(a)[1]}
    # also factor negative powers present in any term (positive atoms): common denominators
    for m, _ in items:
      for a, e in m:
        if e < 0 and not atom_sign(a)[0] and not atom_sign(a)[1]:
          pos[a] = min(pos.get(a, 0), e)
    pos = {a: e for a, e in pos.items() if e}
    if pos:
      f = P('R', {tuple(sorted(pos.items(), key=lambda kv: kv[0].id)): Fraction(1)})
      q = pmul(p, pinv(f))
      if q is not p: return padd(flog(f), flog(q))
  return atom(mk('fn', 'R', 'log', p))


def fpow(x, y):
  """x**y for real x,y (total; meaningful when x>0, or x=0,y>0)."""
  c = const_val(y)
  if c is not None:
    if c.denominator == 1 and abs(c) <= 64:
      return ppow(x, int(c)) if c >= 0 else ppow(pinv(x), -int(c))
    if c == Fraction(1, 2): return fsqrt(x)
    if c == Fraction(-1, 2): return pinv(fsqrt(x))
  b = const_val(x)
  if b == 1: return R(1)
  sx = sign(x)
  if c is None and not sx[0] and not sx[1] and len(y.a[0]) == 1:
    # x > 0: powers with a rational multiple of the same exponent are powers and roots of one atom
    (m, k), = y.a[0]
    n, d = k.numerator, k.denominator
    if (n < 0 or n > 1 or d > 1) and abs(n) <= 8 and d in (1, 2, 4, 8) and all(a.k in ('var', 'app') for a, _ in m):
      r = atom(mk('fn', 'R', 'pow', x, P('R', {m: Fraction(1)})))
      while d > 1: r = fsqrt(r); d //= 2
      return ppow(r, n) if n > 0 else ppow(pinv(r), -n)
  return atom(mk('fn', 'R', 'pow', x, y))


def fcos(p):
  c = const_val(p)
  if c == 0: return R(1)
  # multiples of pi
  if len(p.a[0]) == 1:
    m, k = p.a[0][0]
    if len(m) == 1 and m[0][0] is PI_ATOM() and m[0][1] == 1:
      k = k % 2
      if k == 0: return R(1)
      if k == 1: return R(-1)
      if k in (Fraction(1, 2), Fraction(3, 2)): return R(0)
  if p.a[0] and p.a[0][0][1] < 0: p = pneg(p)
  return atom(mk('fn', 'R', 'cos', p))


def PI_ATOM(): return mk('fn', 'R', 'pi')


def fn(name, *args, sort='R'):
  """A generic uninterpreted function of scalar terms."""
  return atom(mk('fn', sort, name, *args))


def i2r(p):
  """Integer polynomial as a real polynomial."""
  d = num('R', 0)
  for m, c in p.a[0]:
    q = R(c)
    for a, e in m:
      if a.k == 'ite':
        qa = ite(a.a[0], i2r(a.a[1]), i2r(a.a[2]))
      elif a.k == 'fn' and a.a[0] == 'max':
        qa = tmax(i2r(a.a[1]), i2r(a.a[2]))
      else:
        qa = atom(mk('i2r', 'R', a))
      for _ in range(e): q = pmul(q, qa)
    d = padd(d, q)
  return d


def b2i(b, sort='I'):
  return ite(b, num(sort, 1), num(sort, 0))


def wrap(p, lo, hi):
  """Two's complement wrap into [lo, hi]."""
  l, h = irange(p)
  if l is not None and h is not None and l >= lo and h <= hi: return p
  c = const_val(p)
  if c is not None:
    w = hi - lo + 1
    return I((int(c) - lo) % w + lo)
  return atom(mk('fn', 'I', 'wrap', lo, hi, p))


IVR = {}       # index variable (skolem or fresh) -> its dimension


def pdiv(p, q):
  """p / q for a polynomial p and a monomial q, if exact."""
  if len(q.a[0]) != 1: return None
  mq, cq = q.a[0][0]
  out = {}
  for m, c in p.a[0]:
    d = dict(m)
    for a, e in mq:
      if d.get(a, 0) < e: return None
      d[a] -= e
      if not d[a]: del d[a]
    if p.sort == 'I' and c % cq: return None
    out[tuple(sorted(d.items(), key=lambda kv: kv[0].id))] = c / cq
  return P(p.sort, out)


def index_lt(r, q):
  """0 <= r < q because of the ranges of the index variables in r."""
  if not r.a[0]: return True
  c, cq = const_val(r), const_val(q)
  if c is not None: return cq is not None and 0 <= c < cq
  for m, _ in r.a[0]:
    for a, e in m:
      d = IVR.get(a) if a.k == 'ivar' and e == 1 else None
      if d is None: continue
      rest, S = {}, {}
      for m2, c2 in r.a[0]:
        if any(x is a for x, _e in m2): S[tuple(x for x in m2 if x[0] is not a)] = c2
        else: rest[m2] = c2
      S = P('I', S)
      if len(S.a[0]) != 1 or S.a[0][0][1] < 0 or any(x.k == 'ivar' for x, _e in S.a[0][0][0]): continue
      if pdiv(q, pmul(d, S)) is None: continue
      if index_lt(P('I', rest), S): return True
  return False


def split_flat(ranges, frs, body):
  """Replaces an index over a product dimension by the indices of the factors
  when the body divides it by a factor (a sum over a flattened array)."""
  ranges, frs = list(ranges), list(frs)
  for _ in range(12):
    hit = None
    fat = {as_atom(f): n for n, f in enumerate(frs) if sum(e for m, _c in ranges[n].a[0] for _a, e in m) > 1 or (const_val(ranges[n]) is None and abs(ranges[n].a[0][0][1]) != 1)}
    if not fat: break
    for x in _divs(body):
      a = as_atom(x.a[1])
      if a is None or a not in fat: continue
      d1 = pdiv(ranges[fat[a]], x.a[2])
      if d1 is not None: hit = (fat[a], x.a[2], d1); break
    if hit is None: break
    n, q, d1 = hit
    f1, f2 = fresh_ivar(), fresh_ivar()
    IVR[as_atom(f1)] = d1; IVR[as_atom(f2)] = q
    body = subst(body, {as_atom(frs[n]): padd(pmul(f1, q), f2)})
    ranges[n:n + 1] = [d1, q]; frs[n:n + 1] = [f1, f2]
  return ranges, frs, body


def _divs(root):
  seen = set()
  stack = [root]
  while stack:
    x = stack.pop()
    if x in seen or not fv(x): continue
    seen.add(x)
    if x.k == 'fn' and x.a[0] == 'idiv': yield x
    if x.k == 'poly': stack.extend(a for m, _ in x.a[0] for a, _e in m)
    else:
      todo = list(x.a)
      while todo:
        y = todo.pop()
        if isinstance(y, T): stack.append(y)
        elif isinstance(y, tuple): todo.extend(y)


def idiv(p, q):
  """floor division, q>0 meaningful."""
  a, b = const_val(p), const_val(q)
  if a is not None and b: return I(a // b)
  if b == 1: return p
  if b is not None and b > 0:
    # split off multiples
    whole = {m: c for m, c in p.a[0] if c % b == 0}
    if whole and len(whole) < len(p.a[0]):
      w = P('I', whole)
      return padd(P('I', {m: c / b for m, c in whole.items()}), idiv(psub(p, w), q))
    if whole: return P('I', {m: c / b for m, c in whole.items()})
  lo, hi = irange(p)
  if b is not None and lo is not None and hi is not None and lo >= 0 and hi < b: return I(0)
  if len(q.a[0]) == 1 and b is None:
    whole = {m: c for m, c in p.a[0] if pdiv(P('I', {m: c}), q) is not None}
    if whole:
      w = P('I', whole)
      return padd(pdiv(w, q), idiv(psub(p, w), q))
  if IVR and index_lt(p, q): return I(0)
  return atom(mk('fn', 'I', 'idiv', p, q))


def imod(p, q):
  a, b = const_val(p), const_val(q)
  if a is not None and b: return I(a % b)
  if b is not None and b > 0:
    return psub(p, pmul(q, idiv(p, q)))
  return psub(p, pmul(q, idiv(p, q)))


# ---------------------------------------------------------------- free vars / subst
def fv(t):
  if t._fv is not None: return t._fv
  k = t.k
  if k == 'ivar': r = frozenset((t,))
  elif k == 'poly':
    r = frozenset()
    for m, _ in t.a[0]:
      for a, _e in m: r |= fv(a)
  elif k == 'red' or k == 'all':
    _, ranges, body, bvs = _redparts(t)
    r = fv(body) - frozenset(bvs)
    for d in ranges: r |= fv(d)
  elif k == 'uf':
    r = frozenset()
    for x in t.a[1]: r |= fv(x)
    for x in t.a[2]: r |= fv(x)
  elif k == 'lam':
    bvs, bodies = t.a[1], t.a[2]
    r = frozenset()
    for b in bodies: r |= fv(b)
    r -= frozenset(bvs)
    for d in t.a[0]: r |= fv(d)
  else:
    r = frozenset()
    for x in t.a:
      if isinstance(x, T): r |= fv(x)
      elif isinstance(x, tuple):
        for y in x:
          if isinstance(y, T): r |= fv(y)
  t._fv = r
  return r


def _redparts(t):
  """(op, ranges, body, bound ivar atoms)."""
  if t.k == 'red': return t.a[0], t.a[1], t.a[2], t.a[3]
  return 'all', t.a[0], t.a[1], t.a[2]


def maxbound(t):
  """1 + highest canonical bound number inside t."""
  if t._mb is not None: return t._mb
  k = t.k
  r = 0
  if k == 'poly':
    for m, _ in t.a[0]:
      for a, _e in m: r = max(r, maxbound(a))
  elif k == 'ivar':
    r = 0
  else:
    stack = list(t.a)
    while stack:
      x = stack.pop()
      if isinstance(x, T):
        if x.k == 'ivar' and x.a[0].startswith('#'): r = max(r, int(x.a[0][1:]) + 1)
        else: r = max(r, maxbound(x))
      elif isinstance(x, tuple): stack.extend(x)
  t._mb = r
  return r


def subst(t, mp, memo=None):
  """Simultaneous substitution: mp maps atoms (ivar/var/app/bool terms) -> terms.

  ivars map to I polynomials; boolean terms map to boolean terms."""
  if memo is None: memo = {}
  keys = frozenset(k for k in mp if k.k == 'ivar')
  only_iv = len(keys) == len(mp)
  return _subst(t, mp, memo, keys if only_iv else None)


def _subst(t, mp, memo, keys):
  if keys is not None and not (fv(t) & keys): return t
  r = memo.get(t)
  if r is not None: return r
  r = _subst1(t, mp, memo, keys)
  memo[t] = r
  return r


def _subst1(t, mp, memo, keys):
  h = mp.get(t)
  if h is not None: return h
  k = t.k
  S = lambda x: _subst(x, mp, memo, keys)
  if k == 'poly':
    # t may be a wrapped atom that is mapped
    out = []
    changed = False
    for m, c in t.a[0]:
      q = None
      for a, e in m:
        b = S_atom(a, mp, memo, keys)
        if as_atom(b) is not a: changed = True
      out.append(0)
    if not changed: return t
    r = num(t.sort, 0)
    for m, c in t.a[0]:
      q = num(t.sort, c)
      for a, e in m:
        b = S_atom(a, mp, memo, keys)
        q = pmul(q, ppow(b, e) if e > 0 else ppow(pinv(b), -e))
      r = padd(r, q)
    return r
  if k in ('true', 'false', 'pi'): return t
  if k == 'not': return lnot(S(t.a[0]))
  if k == 'and': return land(*[S(x) for x in t.a])
  if k == 'or': return lor(*[S(x) for x in t.a])
  if k == 'iff': return iff(S(t.a[0]), S(t.a[1]))
  if k == 'ge': return ge0(S(t.a[0]))
  if k == 'gt': return gt0(S(t.a[0]))
  if k == 'eq': return eq0(S(t.a[0]))
  if k == 'all':
    ranges, body, bvs = t.a
    fr = ranged([S(d) for d in ranges])
    b = _subst(body, {v: f for v, f in zip(bvs, fr)}, {}, frozenset(bvs))
    b = subst(b, mp)
    return forall_([S(d) for d in ranges], fr, b)
  if t.sort == 'B':
    if k == 'app': return app('B', t.a[0], [S(x) for x in t.a[1]])
    if k == 'var': return t
    if k == 'uf': return mk_uf('B', t.a[0], [S(x) for x in t.a[1]], [S(x) for x in t.a[2]])
    if k == 'fn': return mk('fn', 'B', t.a[0], *[S(x) if isinstance(x, T) else x for x in t.a[1:]])
    raise NotImplementedError(k)
  if t.sort == 'K':
    return mk(k, 'K', *[S(x) if isinstance(x, T) else x for x in t.a])
  if k == 'lam':
    fr = ranged([S(d) for d in t.a[0]])
    bm = {v: f for v, f in zip(t.a[1], fr)}
    bodies = [subst(_subst(b, bm, {}, frozenset(t.a[1])) if t.a[1] else b, mp) for b in t.a[2]]
    return lam([S(d) for d in t.a[0]], fr, bodies)
  return S_atom(t, mp, memo, keys)


def S_atom(a, mp, memo, keys):
  """Substitute in an atom; returns a polynomial."""
  if keys is not None and not (fv(a) & keys): return atom(a)
  key = ('A', a)
  r = memo.get(key)
  if r is not None: return r
  h = mp.get(a)
  if h is not None:
    memo[key] = h
    return h
  S = lambda x: _subst(x, mp, memo, keys)
  k = a.k
  if k in ('var', 'ivar'): r = atom(a)
  elif k == 'app': r = app(a.sort, a.a[0], [S(x) for x in a.a[1]])
  elif k == 'fn': r = mkfn(a.sort, a.a[0], [S(x) if isinstance(x, T) else x for x in a.a[1:]])
  elif k == 'ite': r = ite(S(a.a[0]), S(a.a[1]), S(a.a[2]))
  elif k == 'nz':
    b = S_atom(a.a[0], mp, memo, keys)
    r = nzpoly(b)
  elif k == 'psum': r = S(a.a[0])
  elif k == 'def':
    b = S(a.a[0])
    r = _share(b) if len(b.a[0]) > 20 else b
  elif k == 'i2r': r = i2r(S_atom(a.a[0], mp, memo, keys))
  elif k == 'red':
    op, ranges, body, bvs = a.a
    fr = ranged([subst(d, mp) for d in ranges])
    b = _subst(body, {v: f for v, f in zip(bvs, fr)}, {}, frozenset(bvs))
    b = subst(b, mp)
    r = red_(op, [S(d) for d in ranges], fr, b)
  elif k == 'uf':
    r = mk_uf(a.sort, a.a[0], tuple(S(x) for x in a.a[1]), tuple(S(x) for x in a.a[2]))
  else:
    raise NotImplementedError(k)
  memo[key] = r
  return r


def nzpoly(p):
  c = const_val(p)
  if c is not None: return R(1 if c else 0)
  if len(p.a[0]) == 1:
    m, _ = p.a[0][0]
    r = R(1)
    for a, e in m:
      if not nonzero_atom(a): r = pmul(r, atom(a if a.k == 'nz' else _nz(a)))
    return r
  return atom(_nz(_sumatom(pscale(p, 1 / p.a[0][0][1]))))


def mkfn(sort, name, args):
  if name == 'abs': return fabs(args[0])
  if name == 'sqrt': return fsqrt(args[0])
  if name == 'exp': return fexp(args[0])
  if name == 'log': return flog(args[0])
  if name == 'pow': return fpow(*args)
  if name == 'cos': return fcos(args[0])
  if name == 'max': return tmax(*args)
  if name == 'idiv': return idiv(*args)
  if name == 'wrap': return wrap(args[2], args[0], args[1])
  return atom(mk('fn', sort, name, *args))


# ---------------------------------------------------------------- reductions
def red(op, ranges, body_fn):
  fr = ranged(ranges)
  return red_(op, ranges, fr, body_fn(fr))


def _bind(ranges, frs, body):
  """canonical bound variables; returns (ranges, body, bvs)."""
  pairs = list(zip(ranges, frs))
  order = sorted(range(len(pairs)), key=lambda i: pairs[i][0].id)
  base = maxbound(body)
  for d in ranges: base = max(base, maxbound(d))
  groups = []
  for _, g in itertools.groupby(order, key=lambda i: pairs[i][0].id):
    groups.append(list(g))
  best = None
  perms = itertools.product(*[list(itertools.permutations(g)) if len(g) <= 3 else [tuple(g)] for g in groups])
  for combo in perms:
    seq = [i for g in combo for i in g]
    bvs = [mk('ivar', 'I', '#%d' % (base + n)) for n in range(len(seq))]
    mp = {as_atom(pairs[i][1]): atom(bv) for i, bv in zip(seq, bvs)}
    b = subst(body, mp)
    if best is None or b.id < best[1].id:
      best = (tuple(pairs[i][0] for i in seq), b, tuple(bvs))
  return best


def _expandable(ranges):
  n = 1
  for d in ranges:
    c = const_val(d)
    if c is None: return False
    n *= int(c)
  return n <= 36


def _support(a):
  """Literals that must hold for the atom a to be nonzero."""
  out = []
  while a is not None and a.k == 'ite':
    c, x, y = a.a
    if const_val(y) == 0: lit, a = c, as_atom(x)
    elif const_val(x) == 0: lit, a = lnot(c), as_atom(y)
    else: break
    out += list(lit.a) if lit.k == 'and' else [lit]
  return out


def _coef(p, f):
  """p = S*f + rest with f not in S or rest, or None."""
  S, rest = {}, {}
  for m, c in p.a[0]:
    e = dict(m).get(f, 0)
    if e > 1: return None
    if e: S[tuple(x for x in m if x[0] is not f)] = c
    else: rest[m] = c
  if not S: return None
  S, rest = P(p.sort, S), P(p.sort, rest)
  if f in fv(S) or f in fv(rest): return None
  return S, rest


def _delta_sum(ranges, frs, body):
  """Sums in which a factor is zero except at one value of an index: the term at that value."""
  fat = [as_atom(f) for f in frs]
  fset = set(fat)
  out, hit = [], False
  for m, c in body.a[0]:
    term = P(body.sort, {m: c})
    sol = None
    for a, _e in m:
      if a.k != 'ite' or not (fv(a) & fset): continue
      lits = [l for l in _support(a) if l.k in ('eq', 'ge') and l.a[0].sort == 'I']
      for l in lits:
        for n, f in enumerate(fat):
          if f not in fv(l): continue
          d = _coef(l.a[0], f)
          if d is None: continue
          S, rest = d
          if l.k == 'eq':
            k = const_val(S)
            if k in (1, -1): sol = (n, pscale(rest, -k), [l], None); break
          else:
            # A - S*f >= 0 and S - 1 - A + S*f >= 0
            S = pneg(S)
            if sign(S)[0] or sign(S)[1] or const_val(S) == 1: continue
            for l2 in lits:
              if l2.k == 'ge' and l2 is not l and psub(padd(l.a[0], l2.a[0]), psub(S, I(1))) is I(0):
                sol = (n, idiv(rest, S), [l, l2], (rest, pmul(S, ranges[n]))); break
          if sol: break
        if sol: break
      if sol: break
    if sol is None: out.append((None, term)); continue
    hit = True
    n, e, lits, win = sol
    lo, hi = (e, ranges[n]) if win is None else win
    g = TRUE if index_lt(lo, hi) else land(ge0(lo), gt0(psub(hi, lo)))
    for l in lits: term = _subst(term, _litmap(l, {}), {}, None)
    term = ite(g, subst(term, {fat[n]: e}), num(body.sort, 0))
    out.append((n, term))
  if not hit: return None
  total = num(body.sort, 0)
  rest = num(body.sort, 0)
  for n, term in out:
    if n is None: rest = padd(rest, term)
    else: total = padd(total, red_('sum', [r for j, r in enumerate(ranges) if j != n], [f for j, f in enumerate(frs) if j != n], term))
  return padd(total, red_('sum', ranges, frs, rest)) if rest.a[0] else total


def red_(op, ranges, frs, body):
  # expand literal ranges
  for i, d in enumerate(ranges):
    c = const_val(d)
    if c is not None and c <= 12:
      rest_r = [r for j, r in enumerate(ranges) if j != i]
      rest_f = [f for j, f in enumerate(frs) if j != i]
      parts = [subst(body, {as_atom(frs[i]): I(n)}) for n in range(int(c))]
      if op == 'sum':
        return red_(op, rest_r, rest_f, psum(body.sort, parts))
      r = parts[0]
      for p in parts[1:]: r = tmax(r, p)
      return red_(op, rest_r, rest_f, r)
  if not ranges: return body
  if op == 'sum':
    r = _delta_sum(ranges, frs, body)
    if r is not None: return r
  r2, f2, b2 = split_flat(ranges, frs, body)
  if b2 is not body: return red_(op, r2, f2, b2)
  if op == 'max':
    at = as_atom(body)
    keep = [(d, f) for d, f in zip(ranges, frs) if as_atom(f) in fv(body)]
    if len(keep) < len(ranges):
      if not keep: return body
      ranges, frs = [d for d, _ in keep], [f for _, f in keep]
    # numeric offset
    if at is not None and at.k == 'red' and at.a[0] == 'max':
      _, r2, b2, bv2 = at.a
      fr2 = [fresh_ivar() for _ in bv2]
      b = subst(b2, {v: f for v, f in zip(bv2, fr2)})
      return red_('max', list(ranges) + list(r2), list(frs) + fr2, b)
    # positive content
    if len(body.a[0]) >= 1 and body.sort == 'R':
      c = abs(body.a[0][0][1])
      if c != 1: return pscale(red_('max', ranges, frs, pscale(body, 1 / c)), c)
    rr, b, bvs = _bind(ranges, frs, body)
    return atom(mk('red', body.sort, 'max', rr, b, bvs))
  # sum
  fs0 = frozenset(as_atom(f) for f in frs)
  for m, c in body.a[0]:
    for a, e in m:
      if a.k == 'ite' and not (fv(a.a[0]) & fs0) and (fv(a) & fs0):
        # an index-independent condition: one sum per branch
        q = a.a[0]
        b1, b2 = (_subst(body, _litmap(l, {}), {}, None) for l in (q, lnot(q)))
        return ite(q, red_(op, ranges, frs, b1), red_(op, ranges, frs, b2))
  out = num(body.sort, 0)
  fat = [as_atom(f) for f in frs]
  fset = frozenset(fat)
  for m, c in body.a[0]:
    outside = {}
    comps = []   # list of (varset, {atom:exp})
    flat_extra = []
    mm = []
    todo = list(m)
    extra_r, extra_f = [], []
    while todo:
      a, e = todo.pop()
      dep = fv(a) & (fset | frozenset(as_atom(f) for f in extra_f))
      if not dep:
        outside[a] = e
        continue
      if a.k == 'red' and a.a[0] == 'sum' and e == 1:
        _, r2, b2, bv2 = a.a
        if len(b2.a[0]) == 1 and b2.a[0][0][1] == 1:
          fr2 = [fresh_ivar() for _ in bv2]
          b = subst(b2, {v: f for v, f in zip(bv2, fr2)})
          if len(b.a[0]) == 1 and b.a[0][0][1] == 1:
            extra_r += list(r2); extra_f += fr2
            todo += list(b.a[0][0][0])
            continue
      mm.append((a, e))
    allr = list(ranges) + extra_r
    allf = list(frs) + extra_f
    aset = {as_atom(f): (d, f) for d, f in zip(allr, allf)}
    fs = frozenset(aset)
    for a, e in mm:
      dep = fv(a) & fs
      vs, fac = set(dep), {a: e}
      rest = []
      for v2, f2 in comps:
        if v2 & vs:
          vs |= v2
          for x, y in f2.items(): fac[x] = fac.get(x, 0) + y
        else: rest.append((v2, f2))
      rest.append((vs, fac))
      comps = rest
    term = P(body.sort, {tuple(sorted(outside.items(), key=lambda kv: kv[0].id)): c})
    used = set()
    for vs, fac in comps:
      used |= vs
      b = P(body.sort, {tuple(sorted(fac.items(), key=lambda kv: kv[0].id)): Fraction(1)})
      vl = sorted(vs, key=lambda a: a.id)
      rr, b, bvs = _bind([aset[v][0] for v in vl], [aset[v][1] for v in vl], b)
      term = pmul(term, atom(mk('red', body.sort, 'sum', rr, b, bvs)))
    for v, (d, f) in aset.items():
      if v not in used:
        term = pmul(term, d if body.sort == 'I' else i2r(d))
    out = padd(out, term)
  if len(body.a[0]) > 1 and body.sort == 'R' and SQUARES.get(_knorm(body)[0]): square(out)
  return out


def forall(ranges, body_fn):
  fr = ranged(ranges)
  return forall_(ranges, fr, body_fn(fr))


def forall_(ranges, frs, body):
  if any(const_val(d) == 0 for d in ranges): return TRUE
  if body is TRUE or body is FALSE: return body
  for i, d in enumerate(ranges):
    c = const_val(d)
    if c is not None and c <= 12:
      rest_r = [r for j, r in enumerate(ranges) if j != i]
      rest_f = [f for j, f in enumerate(frs) if j != i]
      parts = [subst(body, {as_atom(frs[i]): I(n)}) for n in range(int(c))]
      return forall_(rest_r, rest_f, land(*parts))
  if body.k == 'and':
    return land(*[forall_(ranges, frs, b) for b in body.a])
  r2, f2, b2 = split_flat(ranges, frs, body)
  if b2 is not body: return forall_(r2, f2, b2)
  keep = [(d, f) for d, f in zip(ranges, frs) if as_atom(f) in fv(body)]
  if not keep: return body
  ranges, frs = [d for d, _ in keep], [f for _, f in keep]
  if body.k == 'or':
    fs = frozenset(as_atom(f) for f in frs)
    out = [b for b in body.a if not (fv(b) & fs)]
    if out:
      inn = [b for b in body.a if (fv(b) & fs)]
      return lor(*out, forall_(ranges, frs, lor(*inn)))
  if body.k == 'or' and len(body.a) > 1 or body.k == 'not':
    # one-point rule: for all i < n, i = e implies B(i)
    for b in (body.a if body.k == 'or' else [body]):
      if b.k != 'not': continue
      for l in (b.a[0].a if b.a[0].k == 'and' else [b.a[0]]):
        if l.k != 'eq' or l.a[0].sort != 'I': continue
        for n, f in enumerate(frs):
          at = as_atom(f)
          if at not in fv(l): continue
          d = _coef(l.a[0], at)
          if d is None: continue
          k = const_val(d[0])
          if k not in (1, -1): continue
          e = pscale(d[1], -k)
          g = TRUE if index_lt(e, ranges[n]) else land(ge0(e), gt0(psub(ranges[n], e)))
          inst = subst(body, {at: e})
          return forall_([r for j, r in enumerate(ranges) if j != n], [x for j, x in enumerate(frs) if j != n], lor(lnot(g), inst))
  if body.k == 'all':
    r2, b2, bv2 = body.a
    fr2 = [fresh_ivar() for _ in bv2]
    return forall_(list(ranges) + list(r2), list(frs) + fr2, subst(b2, {v: f for v, f in zip(bv2, fr2)}))
  rr, b, bvs = _bind(ranges, frs, body)
  return mk('all', 'B', rr, b, bvs)


def exists(ranges, body_fn):
  return lnot(forall(ranges, lambda fr: lnot(body_fn(fr))))


def lam(ranges, frs, bodies):
  """Array value: lambda over indices of a tuple of scalar terms."""
  base = 0
  for b in bodies: base = max(base, maxbound(b))
  for d in ranges: base = max(base, maxbound(d))
  bvs = tuple(mk('ivar', 'I', '#%d' % (base + n)) for n in range(len(ranges)))
  mp = {as_atom(f): atom(v) for f, v in zip(frs, bvs)}
  return mk('lam', 'A', tuple(ranges), bvs, tuple(subst(b, mp) if mp else b for b in bodies))


def mk_uf(sort, name, arrs, idx):
  """Uninterpreted function of whole arrays `arrs` (lam terms or scalars), at index idx."""
  g = SYM.get(name)
  if g is not None:
    # derivatives do not depend on the order of differentiation
    idx = list(idx)
    for blocks in g:
      vals = sorted((tuple(idx[i] for i in b) for b in blocks), key=lambda v: tuple(x.id for x in v))
      for b, v in zip(blocks, vals):
        for i, x in zip(b, v): idx[i] = x
  t = mk('uf', sort, name, tuple(arrs), tuple(idx))
  return t if sort == 'B' else atom(t)


# ---------------------------------------------------------------- facts
def set_fact(key, neg, zero, pos):
  FACTS[key] = (neg, zero, pos); EPOCH[0] += 1


def assume_fact(b):
  """Record simple sign facts from an assumed boolean term."""
  if b.k == 'and':
    for x in b.a: assume_fact(x)
    return
  def put(p, s):
    at = as_atom(p)
    if at is not None:
      o = atom_sign(at)
      FACTS[at] = tuple(x and y for x, y in zip(o, s)); EPOCH[0] += 1
    q, _ = _knorm(p)
    o = sign(q)
    KNOWN[q] = tuple(x and y for x, y in zip(o, s)); EPOCH[0] += 1
    if not s[0]:
      q, k = _bsplit(p)
      if q is not None and len(p.a[0]) > 1:
        b = (-k, not s[1]); o = BOUND.get(q)
        if o is None or (b[0], b[1]) > o: BOUND[q] = b; EPOCH[0] += 1
    if p.sort == 'I' and s == (False, True, True):
      # the same fact about the values read as reals: q + k >= 0
      k = sum((c for m, c in p.a[0] if not m), Fraction(0))
      q = psub(p, num('I', k))
      if len(q.a[0]) > 1 and k <= 0:
        for u, w in ((q, (False, k == 0, True)), (p, s)):
          r, _ = _knorm(i2r(u))
          o = sign(r)
          KNOWN[r] = tuple(x and y for x, y in zip(o, w)); EPOCH[0] += 1
    if p.sort == 'I' and s[2]:
      # c*x + k >= 0 with a single unit-coefficient atom gives a range
      items = [(m, c) for m, c in p.a[0] if m]
      k = sum((c for m, c in p.a[0] if not m), Fraction(0))
      if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        a = items[0][0][0][0]; c = items[0][1]
        lo, hi = irange_atom(a)
        if c > 0:
          v = -(k // c) if True else None
          import math
          v = math.ceil(-k / c)
          if lo is None or v > lo: IRANGE[a] = (v, hi); EPOCH[0] += 1
        else:
          import math
          v = math.floor(k / -c)
          if hi is None or v < hi: IRANGE[a] = (lo, v); EPOCH[0] += 1
  if b.k == 'ge': put(b.a[0], (False, True, True))
  elif b.k == 'gt': put(b.a[0], (False, False, True))
  elif b.k == 'eq': put(b.a[0], (False, True, False))
  elif b.k == 'not' and b.a[0].k == 'eq': put(b.a[0].a[0], (True, False, True))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
  if depth > 12: return '..'
  k = t.k
  s = lambda x: show(x, depth + 1)
  if k == 'poly':
    if not t.a[0]: return '0'
    out = []
    for m, c in t.a[0][:12]:
      fs = [('%s^%d' % (s(a), e) if e != 1 else s(a)) for a, e in m]
      if c != 1 or not fs: fs = [str(c)] + fs
      out.append('*'.join(fs))
    r = ' + '.join(out)
    if len(t.a[0]) > 12: r += ' +...'
    return '(' + r + ')' if len(t.a[0]) > 1 else r
  if k in ('var', 'ivar'): return t.a[0]
  if k == 'app': return '%s[%s]' % (t.a[0], ','.join(s(x) for x in t.a[1]))
  if k == 'fn': return '%s(%s)' % (t.a[0], ','.join(s(x) if isinstance(x, T) else str(x) for x in t.a[1:]))
  if k == 'ite': return 'if(%s, %s, %s)' % tuple(map(s, t.a))
  if k in ('ge', 'gt', 'eq'): return '%s %s 0' % (s(t.a[0]), {'ge': '>=', 'gt': '>', 'eq': '='}[k])
  if k == 'not': return '!(%s)' % s(t.a[0])
  if k in ('and', 'or'): return '(' + (' & ' if k == 'and' else ' | ').join(map(s, t.a)) + ')'
  if k == 'iff': return '(%s <-> %s)' % tuple(map(s, t.a))
  if k == 'red': return '%s{%s in %s}(%s)' % (t.a[0], ','.join(map(s, t.a[3])), ','.join(map(s, t.a[1])), s(t.a[2]))
  if k == 'all': return 'all{%s in %s}(%s)' % (','.join(map(s, t.a[2])), ','.join(map(s, t.a[0])), s(t.a[1]))
  if k == 'i2r': return 'real(%s)' % s(t.a[0])
  if k == 'nz': return '[%s!=0]' % s(t.a[0])
  if k in ('psum', 'def'): return s(t.a[0])
  if k == 'uf': return '%s(<%d arrays>)[%s]' % (t.a[0], len(t.a[1]), ','.join(map(s, t.a[2])))
  if k == 'lam': return 'lam(%s)' % ';'.join(map(s, t.a[2]))
  if k == 'true': return 'true'
  if k == 'false': return 'false'
  return k
