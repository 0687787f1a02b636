"""Discharging obligations: normaliser, z3 (nlsat / simplex), cvc5, case splitting, lemmas."""
import itertools
import sys
import time
from fractions import Fraction

from . import terms as t
from .terms import T, TRUE, FALSE, R, I, land, lor, lnot, const_val, psub, padd, pmul

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

IVDIM = {}     # skolem ivar atom -> dim term
STATS = {'normaliser': 0, 'z3': 0, 'z3-nlsat': 0, 'cvc5': 0, 'split': 0, 'time': 0.0, 'queries': 0}
DEADLINE = [None]


def left():
  return 1e9 if DEADLINE[0] is None else DEADLINE[0] - time.time()


def skolem(dim):
  v = t.fresh_ivar('!')
  a = t.as_atom(v)
  IVDIM[a] = dim
  t.IVR[a] = dim
  return v


def rebuild(x, mp=None):
  return t._subst(x, mp or {}, {}, None)


# ------------------------------------------------------------------ term walks
def children(x):
  k = x.k
  if k == 'poly':
    for m, _ in x.a[0]:
      for a, _e in m: yield a
    return
  stack = list(x.a)
  while stack:
    y = stack.pop()
    if isinstance(y, T): yield y
    elif isinstance(y, tuple): stack.extend(y)


def walk(roots):
  seen = set()
  stack = list(roots)
  while stack:
    x = stack.pop()
    if x in seen: continue
    seen.add(x)
    yield x
    stack.extend(children(x))


def has_bound(x):
  return any(v.a[0].startswith('#') for v in t.fv(x))


# ------------------------------------------------------------------ encoder
class Enc:
  def __init__(self, exact):
    self.exact = exact
    self.memo = {}
    self.consts = {}
    self.ax = []
    self.byname = {}     # for Ackermann
    self.fns = {}
    self.reds = []
    self.alls = []
    self.ufs = []
    self.n = 0

  def fresh(self, sort, hint='c'):
    self.n += 1
    nm = '%s!%d' % (hint, self.n)
    if sort == 'B': return z3.Bool(nm)
    if sort == 'I' and self.exact: return z3.Int(nm)
    return z3.Real(nm)

  def real(self, e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e

  def poly(self, p):
    r = self.memo.get(p)
    if r is not None: return r
    isint = p.sort == 'I' and self.exact
    parts = []
    for m, c in p.a[0]:
      fs = []
      if isint: cv = z3.IntVal(int(c))
      else: cv = z3.RealVal(str(c))
      for a, e in m:
        if e > 0:
          v = self.atom(a)
          if not isint: v = self.real(v)
          fs += [v] * e
        else:
          fs += [self.inv(a)] * (-e)
      x = None
      for f in fs: x = f if x is None else x * f
      if x is None: x = cv
      elif c != 1: x = cv * x
      parts.append(x)
    if not parts: r = z3.IntVal(0) if isint else z3.RealVal(0)
    elif len(parts) == 1: r = parts[0]
    else: r = z3.Sum(parts)
    self.memo[p] = r
    return r

  def rpoly(self, p): return self.real(self.poly(p))

  def inv(self, a):
    k = ('inv', a)
    r = self.memo.get(k)
    if r is None:
      r = self.fresh('R', 'inv')
      v = self.real(self.atom(a))
      if t.nonzero_atom(a): self.ax.append(v * r == 1)
      else: self.ax.append(z3.If(v == 0, r == 0, v * r == 1))
      s = t.atom_sign(a)
      if not s[0]: self.ax.append(r >= 0)
      self.memo[k] = r
    return r

  def bounds(self, a, c):
    s = t.atom_sign(a)
    if s[0] is False: self.ax.append(c >= 0 if s[1] else c > 0)
    elif s[2] is False: self.ax.append(c <= 0 if s[1] else c < 0)
    elif s[1] is False: self.ax.append(c != 0)
    if a.sort == 'I':
      lo, hi = t.irange_atom(a)
      if lo is not None: self.ax.append(c >= int(lo))
      if hi is not None: self.ax.append(c <= int(hi))

  def atom(self, a):
    r = self.memo.get(a)
    if r is not None: return r
    r = self._atom(a)
    self.memo[a] = r
    return r

  def _atom(self, a):
    k = a.k
    if k in ('var', 'ivar'):
      c = self.fresh(a.sort, a.a[0]); self.consts[a] = c
      self.bounds(a, c)
      if k == 'ivar' and a in IVDIM:
        d = self.poly(IVDIM[a])
        self.ax.append(c + 1 <= d)
      return c
    if k == 'app':
      c = self.fresh(a.sort, a.a[0]); self.consts[a] = c
      self.bounds(a, c)
      self.ack(('app', a.a[0]), a.a[1], c)
      return c
    if k == 'ite':
      return z3.If(self.bool(a.a[0]), self.poly(a.a[1]), self.poly(a.a[2]))
    if k in ('psum', 'def'): return self.poly(a.a[0])
    if k == 'nz': return z3.If(self.real(self.atom(a.a[0])) == 0, z3.RealVal(0), z3.RealVal(1))
    if k == 'i2r': return self.real(self.atom(a.a[0]))
    if k == 'fn': return self.fn(a)
    if k == 'red':
      c = self.fresh(a.sort, 'red'); self.consts[a] = c
      self.bounds(a, c)
      self.reds.append((a, c))
      return c
    if k == 'uf':
      c = self.fresh(a.sort, 'uf'); self.consts[a] = c
      self.bounds(a, c)
      self.ack(('uf', a.a[0], a.a[1]), a.a[2], c)
      self.ufs.append((a, c))
      return c
    raise NotImplementedError(k)

  def ack(self, key, idx, c):
    lst = self.byname.setdefault(key, [])
    for idx2, c2 in lst:
      if len(idx2) != len(idx): continue
      d = land(*[t.eq(x, y) for x, y in zip(idx, idx2)])
      if d is FALSE: continue
      self.ax.append(z3.Implies(self.bool(d), c == c2))
    lst.append((tuple(idx), c))

  def fn(self, a):
    n = a.a[0]
    ax = self.ax
    if n == 'max':
      x, y = self.poly(a.a[1]), self.poly(a.a[2])
      return z3.If(x >= y, x, y)
    if n == 'abs':
      x = self.poly(a.a[1])
      return z3.If(x >= 0, x, -x)
    if n == 'zsign':
      raise NotImplementedError
    c = self.fresh(a.sort, n); self.consts[a] = c
    self.bounds(a, c)
    if n == 'sqrt':
      x = self.rpoly(a.a[1])
      ax.append(c >= 0)
      if not t.sign(a.a[1])[0]: ax.append(c * c == x)
      else: ax.append(z3.If(x >= 0, c * c == x, c == 0))
    elif n == 'pi':
      ax += [c > z3.Q(314159, 100000), c < z3.Q(314160, 100000)]
    elif n == 'exp':
      x = self.rpoly(a.a[1])
      ax += [c > 0, c >= 1 + x]
      ax.append(z3.Implies(x == 0, c == 1))
      for x2, c2 in self.fns.setdefault('exp', []):
        ax += [(x <= x2) == (c <= c2), (x == x2) == (c == c2)]
      self.fns['exp'].append((x, c))
    elif n == 'log':
      x = self.rpoly(a.a[1])
      ax += [z3.Implies(x > 0, c <= x - 1), z3.Implies(x >= 1, c >= 0), z3.Implies(x == 1, c == 0)]
      for x2, c2 in self.fns.setdefault('log', []):
        ax.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And((x <= x2) == (c <= c2), (x == x2) == (c == c2))))
      self.fns['log'].append((x, c))
    elif n == 'cos':
      x = self.rpoly(a.a[1])
      pi = self.atom(t.PI_ATOM())
      ax += [c >= -1, c <= 1, z3.Implies(x == 0, c == 1), z3.Implies(x == pi, c == -1)]
      for x2, c2 in self.fns.setdefault('cos', []):
        ax.append(z3.Implies(x == x2, c == c2))
        ax.append(z3.Implies(z3.And(0 <= x, x <= x2, x2 <= pi), c >= c2))
        ax.append(z3.Implies(z3.And(0 <= x2, x2 <= x, x <= pi), c2 >= c))
      self.fns['cos'].append((x, c))
    elif n == 'pow':
      x, y = self.rpoly(a.a[1]), self.rpoly(a.a[2])
      ax += [z3.Implies(x > 0, c > 0), z3.Implies(z3.And(x >= 1, y >= 0), c >= 1),
             z3.Implies(z3.And(x > 0, x <= 1, y >= 0), c <= 1),
             z3.Implies(z3.And(x > 0, x < 1, y > 0), c < 1),
             z3.Implies(z3.And(x > 1, y > 0), c > 1),
             z3.Implies(z3.And(x > 0, x <= 1, y >= 1), c <= x),
             z3.Implies(z3.And(x >= 0, x <= 1, y > 0), z3.And(c >= 0, c <= 1)),
             z3.Implies(z3.And(x == 0, y > 0), c == 0), z3.Implies(x == 1, c == 1),
             z3.Implies(y == 0, c == 1), z3.Implies(y == 1, c == x), z3.Implies(y == 2, c == x * x)]
      for x2, y2, c2 in self.fns.setdefault('pow', []):
        ax.append(z3.Implies(z3.And(x == x2, y == y2), c == c2))
        if x2.eq(x):
          ax.append(z3.Implies(z3.And(x > 0, x <= 1, y <= y2), c >= c2))
          ax.append(z3.Implies(z3.And(x > 0, x <= 1, y >= y2), c <= c2))
          ax.append(z3.Implies(z3.And(x >= 1, y <= y2), c <= c2))
          ax.append(z3.Implies(z3.And(x >= 1, y >= y2), c >= c2))
          ax.append(z3.Implies(z3.And(y2 == y + 1, x > 0), c2 == c * x))
          ax.append(z3.Implies(z3.And(y2 == -y, x > 0), c2 * c == 1))
          ax.append(z3.Implies(z3.And(y == y2 + 1, x > 0), c == c2 * x))
        if y2.eq(y):
          ax.append(z3.Implies(z3.And(x >= 0, x <= x2, y > 0), c <= c2))
          ax.append(z3.Implies(z3.And(x2 >= 0, x2 <= x, y > 0), c2 <= c))
      self.fns['pow'].append((x, y, c))
    elif n in ('floor', 'ifloor', 'trunc'):
      x = self.rpoly(a.a[1])
      if n == 'trunc':
        cr = self.real(c)
        ax += [z3.Implies(x >= 0, z3.And(cr <= x, x < cr + 1)), z3.Implies(x <= 0, z3.And(cr >= x, x > cr - 1))]
      else:
        if self.exact:
          i = c if n == 'ifloor' else self.fresh('I', 'fl')
          if n == 'floor': ax.append(c == z3.ToReal(i))
        cr = self.real(c)
        ax += [cr <= x, x < cr + 1]
    elif n == 'idiv':
      p, q = self.poly(a.a[1]), self.poly(a.a[2])
      ax.append(z3.Implies(q > 0, z3.And(q * c <= p, (p + 1 <= q * c + q) if self.exact else p < q * c + q)))
      ax.append(z3.Implies(z3.And(q > 0, p >= 0, p < q), c == 0))
      ax.append(z3.Implies(z3.And(q > 0, p >= 0), c >= 0))
    elif n == 'wrap':
      lo, hi, p = a.a[1], a.a[2], self.poly(a.a[3])
      ax += [c >= lo, c <= hi, z3.Implies(z3.And(p >= lo, p <= hi), c == p)]
      if self.exact:
        kq = z3.Int('wk!%d' % self.n); w = hi - lo + 1
        ax.append(c == p + kq * w)
      else:
        w = hi - lo + 1
        ax += [z3.Implies(z3.And(p > hi, p <= hi + w), c == p - w), z3.Implies(z3.And(p < lo, p >= lo - w), c == p + w)]
    elif n == 'uniform':
      ax += [c >= 0, c < 1]
      self._ackfn(a, c)
    else:
      self._ackfn(a, c)
    return c

  def _ackfn(self, a, c):
    """Congruence over the term arguments of a generic function symbol."""
    head = tuple(x if not (isinstance(x, T) and x.sort in 'RI' and x.k == 'poly') else None for x in a.a)
    args = [x for x in a.a if isinstance(x, T) and x.k == 'poly']
    lst = self.byname.setdefault(('fn', head), [])
    for args2, c2 in lst:
      d = land(*[t.eq(x, y) for x, y in zip(args, args2)])
      if d is FALSE: continue
      self.ax.append(z3.Implies(self.bool(d), c == c2))
    lst.append((args, c))

  def bool(self, b):
    r = self.memo.get(b)
    if r is not None: return r
    k = b.k
    if k == 'true': r = z3.BoolVal(True)
    elif k == 'false': r = z3.BoolVal(False)
    elif k == 'not': r = z3.Not(self.bool(b.a[0]))
    elif k == 'and': r = z3.And(*[self.bool(x) for x in b.a])
    elif k == 'or': r = z3.Or(*[self.bool(x) for x in b.a])
    elif k == 'iff': r = self.bool(b.a[0]) == self.bool(b.a[1])
    elif k == 'ge': r = self.poly(b.a[0]) >= 0
    elif k == 'gt': r = self.poly(b.a[0]) > 0
    elif k == 'eq':
      r = self.poly(b.a[0]) == 0
    elif k in ('var', 'app', 'uf', 'fn'):
      r = self.fresh('B', str(b.a[0])); self.consts[b] = r
      if k == 'app': self.ack(('app', b.a[0]), b.a[1], r)
      if k == 'uf':
        self.ack(('uf', b.a[0], b.a[1]), b.a[2], r)
        self.ufs.append((b, r))
    elif k == 'all':
      r = self.fresh('B', 'all'); self.consts[b] = r
      self.alls.append((b, r))
    else: raise NotImplementedError(k)
    self.memo[b] = r
    return r


# ------------------------------------------------------------------ instantiation of sums, maxima, foralls
def inst(body, bvs, vals):
  return t.subst(body, {b: v for b, v in zip(bvs, vals)})


def candidates(roots, ranges, extra=()):
  """Tuples of ground index terms for the ranges."""
  iv = {}
  for x in roots:
    if x.k == 'ivar' and x in IVDIM:
      iv.setdefault(IVDIM[x], []).append(t.atom(x))
  for a in extra: iv.setdefault(IVDIM[a], []).append(t.atom(a))
  lists = []
  for d in ranges:
    c = iv.get(d, [])
    cv = const_val(d)
    if cv is not None and cv <= 16: c = [I(n) for n in range(int(cv))]
    lists.append(list(dict.fromkeys(c))[:6])
  out = list(itertools.islice(itertools.product(*lists), 40))
  return out


SKOLEMS = {}


def skolems_for(key, ranges):
  if key not in SKOLEMS:
    SKOLEMS[key] = [skolem(d) for d in ranges]
  return SKOLEMS[key]


def lemmas(roots, rounds=2):
  """Boolean terms valid for the reductions and quantifiers in roots."""
  out = []
  done = set()
  cur = list(roots)
  for rnd in range(rounds):
    ts = list(walk(cur))
    ground = [x for x in ts if not has_bound(x)]
    new = []
    for x in ground:
      if x.k == 'red' and x.sort in 'RI':
        op, rng, body, bvs = x.a
        ax = t.atom(x)
        if op == 'max':
          if ('sk', x) not in done and all(t.irange(d)[0] is not None and t.irange(d)[0] >= 1 for d in rng):
            done.add(('sk', x))
            sk = skolems_for(x, rng)
            new.append(t.eq(ax, inst(body, bvs, sk)))
          for vals in candidates(ground, rng):
            if (x, vals) in done: continue
            done.add((x, vals))
            new.append(t.le(inst(body, bvs, vals), ax))
        elif op == 'sum':
          s = t.sign(body)
          if not s[0] or not s[2]:
            for vals in candidates(ground, rng):
              if (x, vals) in done: continue
              done.add((x, vals))
              e = inst(body, bvs, vals)
              if x.sort == 'R' or True:
                new.append(t.le(e, ax) if not s[0] else t.le(ax, e))
            if s[1] and ('wit', x) not in done:
              done.add(('wit', x))
              sk = skolems_for(x, rng)
              new.append(lor(t.eq0(ax), lnot(t.eq0(inst(body, bvs, sk)))))
      elif x.k == 'all':
        rng, body, bvs = x.a
        if ('sk', x) not in done:
          done.add(('sk', x))
          sk = skolems_for(x, rng)
          new.append(lor(x, lnot(inst(body, bvs, sk))))
        for vals in candidates(ground, rng):
          if (x, vals) in done: continue
          done.add((x, vals))
          new.append(lor(lnot(x), inst(body, bvs, vals)))
      elif x.k == 'fn' and x.a[0] == 'log' and ('log', x) not in done:
        # log(e^q + rest) >= q for rest >= 0, also for a sum of exponentials
        u = x.a[1]
        if not t.sign(u)[0]:
          done.add(('log', x))
          for m, c in u.a[0]:
            if c < 1 or t.sign(psub(u, t.P('R', {m: c})))[0]: continue
            q = _exponent(m)
            if q is not None: new.append(t.le(q, t.atom(x)))
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'red' and m[0][0].a[0] == 'sum':
              op, rng, body, bvs = m[0][0].a
              if len(body.a[0]) != 1 or body.a[0][0][1] < 1: continue
              q = _exponent(body.a[0][0][0])
              if q is None: continue
              for vals in candidates(ground, rng): new.append(t.le(inst(q, bvs, vals), t.atom(x)))
    # Cauchy-Schwarz: w = sum u*v with u^2, v^2 sums present
    sums = [x for x in ground if x.k == 'red' and x.sort == 'R' and x.a[0] == 'sum']
    for x in sums:
      m = x.a[2].a[0]
      if len(m) != 1 or m[0][1] != 1: continue
      mono = m[0][0]
      for split in _splits(mono):
        u, v = split
        P1 = t.P('R', {u: Fraction(1)}); P2 = t.P('R', {v: Fraction(1)})
        fr = [t.fresh_ivar() for _ in x.a[3]]
        mp = {b: f for b, f in zip(x.a[3], fr)}
        su = t.red_('sum', list(x.a[1]), fr, t.subst(pmul(P1, P1), mp))
        sv = t.red_('sum', list(x.a[1]), fr, t.subst(pmul(P2, P2), mp))
        if ('cs', x, split) in done: continue
        done.add(('cs', x, split))
        if t.as_atom(su) in sums and t.as_atom(sv) in sums or len(mono) == 1:
          new.append(t.le(pmul(t.atom(x), t.atom(x)), pmul(su, sv)))
    new = [b for b in new if b is not TRUE]
    if not new: break
    out += new
    cur = cur + new
  return out


def _exponent(m):
  """The exponent of a product of exponentials."""
  q = R(0)
  for a, e in m:
    if not (a.k == 'fn' and a.a[0] == 'exp'): return None
    q = padd(q, t.pscale(a.a[1], e))
  return q if m else None


def _splits(mono):
  if len(mono) == 2 and all(e == 1 for _, e in mono):
    yield ((mono[0],), (mono[1],))
  elif len(mono) == 1 and mono[0][1] == 1:
    # sum u = sum u*1
    yield ((mono[0],), ())


# ------------------------------------------------------------------ polarity-guided instantiation
def polarity(roots):
  """atom -> set of '+' (a lower bound is useful) / '-' (an upper bound is useful)."""
  out = {}
  stack = list(roots)
  flip = {'+': '-', '-': '+'}
  seen = set()
  while stack:
    x, p = stack.pop()
    if (x, p) in seen: continue
    seen.add((x, p))
    k = x.k
    if k == 'poly':
      for m, c in x.a[0]:
        for a, e in m:
          if len(m) == 1 and e == 1: s = (True, False)
          else:
            r = t._mul_sign((False, False, True), (False, False, True))
            for b, f in m:
              if b is not a:
                g = t.atom_sign(b)
                r = t._mul_sign(r, g if f % 2 else (False, g[1], g[0] or g[2]))
            if e != 1:
              g = t.atom_sign(a)
              if e < 0: r = (r[2], r[1], r[0]) if not g[0] else t.NZ_ANY
              elif g[0]: r = t.NZ_ANY
            s = (not r[0], not r[2])
          if c < 0: s = (s[1], s[0])
          if s[0]: stack.append((a, p))
          elif s[1]: stack.append((a, flip[p]))
          else: stack += [(a, '+'), (a, '-')]
      continue
    if x.sort in 'RI': out.setdefault(x, set()).add(p)
    if k in ('ge', 'gt'): stack.append((x.a[0], p))
    elif k == 'not':
      if x.a[0].k == 'eq': stack += [(x.a[0].a[0], '+'), (x.a[0].a[0], '-')]
      else: stack.append((x.a[0], flip[p]))
    elif k in ('and', 'or'): stack += [(y, p) for y in x.a]
    elif k == 'all':
      out.setdefault(x, set()).add(p); stack.append((x.a[1], p))
    elif k == 'fn' and x.a[0] in ('max', 'sqrt', 'exp', 'log', 'floor', 'ifloor', 'trunc'):
      stack += [(y, p) for y in x.a[1:] if isinstance(y, T)]
    elif k == 'red': stack.append((x.a[2], p)); stack += [(d, q) for d in x.a[1] for q in '+-']
    elif k == 'ite':
      stack += [(x.a[0], '+'), (x.a[0], '-'), (x.a[1], p), (x.a[2], p)]
    elif k in ('psum', 'def', 'i2r'): stack.append((x.a[0], p))
    else:
      for y in children(x): stack += [(y, '+'), (y, '-')]
  return out


def polar_lemmas(assum, goal, rounds=4):
  """Only the witnesses and instances that push in the useful direction."""
  out = []
  done = set()
  facts = list(assum)
  roots = [(goal, '+')] + [(f, '-') for f in assum]
  for rnd in range(rounds):
    pol = polarity(roots)
    ground = [x for x in walk(facts + [goal]) if not has_bound(x)]
    new = []
    for x in ground:
      ps = pol.get(x, ())
      if x.k == 'red' and x.a[0] == 'max':
        op, rng, body, bvs = x.a
        if '-' in ps and ('sk', x) not in done and all(t.irange(d)[0] is not None and t.irange(d)[0] >= 1 for d in rng):
          done.add(('sk', x)); b = inst(body, bvs, skolems_for(x, rng))
          new.append(t.le(t.atom(x), b)); roots.append((b, '-'))
        if '+' in ps:
          for vals in candidates(ground, rng):
            if (x, vals) not in done:
              done.add((x, vals)); b = inst(body, bvs, vals)
              new.append(t.le(b, t.atom(x))); roots.append((b, '+'))
      elif x.k == 'all':
        rng, body, bvs = x.a
        if '+' in ps and ('sk', x) not in done:
          done.add(('sk', x)); b = inst(body, bvs, skolems_for(x, rng))
          new.append(lor(x, lnot(b))); roots.append((b, '+'))
        if '-' in ps:
          for vals in candidates(ground, rng):
            if (x, vals) not in done:
              done.add((x, vals)); b = inst(body, bvs, vals)
              new.append(lor(lnot(x), b)); roots.append((b, '-'))
    new = [b for b in new if b is not TRUE]
    if not new: break
    out += new; facts += new
  return out


# ------------------------------------------------------------------ proving
class Res:
  def __init__(self, status, backend='', model=None, note=''):
    self.status = status; self.backend = backend; self.model = model; self.note = note

  def __repr__(self): return 'Res(%s,%s,%s)' % (self.status, self.backend, self.note)


def check(assum, goal, exact, tactic, ms, want_model=False, lem=None):
  e = Enc(exact)
  if lem is None: lem = lemmas(list(assum) + [goal])
  fs = [e.bool(x) for x in assum] + [e.bool(x) for x in lem]
  g = e.bool(goal)
  s = z3.SolverFor('QF_NRA') if tactic == 'nlsat' else z3.Solver()
  s.set('timeout', int(max(50, min(ms, left() * 1000))))
  # facts recorded outside the assumption list
  for p, sg in list(t.KNOWN.items()):
    pass
  s.add(*e.ax); s.add(*fs); s.add(z3.Not(g))
  t0 = time.time()
  r = s.check()
  STATS['time'] += time.time() - t0; STATS['queries'] += 1
  if r == z3.unsat: return Res('proved', 'z3-nlsat' if tactic == 'nlsat' else 'z3')
  if r == z3.sat:
    model = None
    if want_model:
      m = s.model()
      model = {}
      for a, c in e.consts.items():
        try:
          v = m.eval(c, model_completion=True)
          if z3.is_bool(v): model[a] = z3.is_true(v)
          elif z3.is_algebraic_value(v): model[a] = float(v.approx(20).as_fraction())
          else: model[a] = float(v.as_fraction()) if z3.is_real(v) else v.as_long()
        except Exception: pass
    return Res('refuted', 'z3', model)
  return Res('unknown', 'z3', note=s.reason_unknown())


def cvc5_check(assum, goal, ms):
  try:
    import cvc5
  except Exception:
    return Res('unknown', 'cvc5')
  e = Enc(False)
  lem = lemmas(list(assum) + [goal])
  fs = [e.bool(x) for x in assum] + [e.bool(x) for x in lem]
  g = e.bool(goal)
  s = z3.Solver(); s.add(*e.ax); s.add(*fs); s.add(z3.Not(g))
  txt = '(set-logic QF_NRA)\n' + s.sexpr() + '\n(check-sat)\n'
  t0 = time.time()
  try:
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption('tlimit-per', str(int(ms)))
    slv.setOption('nl-cov', 'true')
    par = cvc5.InputParser(slv)
    par.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = par.getSymbolManager()
    out = ''
    while True:
      cmd = par.nextCommand()
      if cmd.isNull(): break
      out += cmd.invoke(slv, sm)
    r = out.strip()
  except Exception as ex:  # back end failure is "unknown"
    return Res('unknown', 'cvc5', note=str(ex)[:80])
  finally:
    STATS['time'] += time.time() - t0; STATS['queries'] += 1
  if r == 'unsat': return Res('proved', 'cvc5')
  return Res('unknown', 'cvc5', note=r)


def save():
  return dict(t.FACTS), dict(t.KNOWN), dict(t.IRANGE), dict(t.BOUND)


def restore(s):
  for d, v in zip((t.FACTS, t.KNOWN, t.IRANGE, t.BOUND), s):
    d.clear(); d.update(v)
  t.EPOCH[0] += 1


def conds(x, out=None):
  """Ground boolean conditions of ites occurring in x (outermost first)."""
  out = [] if out is None else out
  late = []
  seen = set()
  stack = [x]
  while stack:
    y = stack.pop(0)
    if y in seen: continue
    seen.add(y)
    if y.k == 'ite':
      for c in _lits(y.a[0]):
        if not has_bound(c) and c not in out: out.append(c)
    elif y.k == 'fn' and y.a[0] in ('abs', 'max') and not has_bound(y):
      c = t.ge0(y.a[1] if y.a[0] == 'abs' else psub(y.a[1], y.a[2]))
      if c not in late and c not in (TRUE, FALSE): late.append(c)
    stack.extend(children(y))
  return out + late


def _lits(b):
  if b.k in ('and', 'or', 'iff', 'not'):
    r = []
    for x in b.a: r += _lits(x)
    return r
  return [b]


def pos_lit(b):
  """A literal and how to substitute it: atom-ish key term."""
  return b


def prove(assum, goal, depth=5, quick=False):
  """Does the conjunction of assum entail goal (under the recorded facts)?"""
  if goal is TRUE:
    STATS['normaliser'] += 1
    return Res('proved', 'normaliser')
  if any(a is FALSE for a in assum):
    STATS['normaliser'] += 1
    return Res('proved', 'normaliser')
  if left() < 0: return Res('unknown', note='time budget')
  if goal.k == 'and':
    worst = None
    backs = set()
    for g in goal.a:
      r = prove(assum, g, depth, quick)
      backs.add(r.backend)
      if r.status != 'proved': return r
    return Res('proved', '+'.join(sorted(b for b in backs if b)))
  if goal.k == 'all':
    rng, body, bvs = goal.a
    sk = [skolem(d) for d in rng]
    return prove(assum, inst(body, bvs, sk), depth, quick)
  if goal.k in ('ge', 'gt'):
    # r - c*max(a, b) >= 0  splits into both cases
    for m, k in goal.a[0].a[0]:
      if len(m) == 1 and m[0][1] == 1 and k < 0 and m[0][0].k == 'fn' and m[0][0].a[0] == 'max':
        mx = m[0][0]
        rest = psub(goal.a[0], t.pscale(t.atom(mx), k))
        f = t.ge0 if goal.k == 'ge' else t.gt0
        return prove(assum, land(*[f(padd(rest, t.pscale(y, k))) for y in mx.a[1:]]), depth, quick)
  if goal.k == 'iff' and (goal.a[0].k in ('all',) or goal.a[1].k in ('all',) or
                          any(x.k == 'not' and x.a[0].k == 'all' for x in goal.a)):
    r = prove(assum, lor(lnot(goal.a[0]), goal.a[1]), depth, quick)
    if r.status != 'proved': return r
    return prove(assum, lor(lnot(goal.a[1]), goal.a[0]), depth, quick)
  if goal.k == 'or' and any(x.k == 'all' for x in goal.a):
    x = [x for x in goal.a if x.k == 'all'][0]
    rng, body, bvs = x.a
    sk = [skolem(d) for d in rng]
    return prove(assum, lor(*[y for y in goal.a if y is not x], inst(body, bvs, sk)), depth, quick)
  if goal.k == 'or' and any(x.k in ('ge', 'gt', 'eq', 'not') for x in goal.a):
    # assume the negations of the side literals and renormalise
    sv = save()
    best = None
    for x in goal.a:
      if x.k == 'eq': best = x
    if best is None: best = goal.a[-1]
    side = [lnot(y) for y in goal.a if y is not best]
    for y in side: t.assume_fact(y)
    mp = {}
    for y in side: _add_mp(mp, y)
    try:
      g2 = rebuild(best, mp)
      a2 = list(assum) + side
      if g2 is TRUE:
        STATS['normaliser'] += 1
        return Res('proved', 'normaliser')
      if g2 is not best or best.k == 'eq':
        r = prove(a2, g2, depth, quick)
        if r.status == 'proved': return r
    finally:
      restore(sv)
  # (otherwise the whole disjunction)
  if depth and any(x.k == 'red' and x.a[0] == 'max' for x in walk([goal])):
    r = check(assum, goal, False, 'simplex', 1500, lem=polar_lemmas(assum, goal))
    if r.status == 'proved': STATS['z3'] += 1; return r
  r = check(assum, goal, False, 'simplex', 400 if depth else 1500)
  if r.status == 'proved': STATS['z3'] += 1; return r
  ints = any(x.sort == 'I' and x.k in ('var', 'app', 'fn', 'ivar', 'uf', 'red') for x in walk([goal] + list(assum)))
  if ints:
    r2 = check(assum, goal, True, 'simplex', 800, want_model=True)
    if r2.status == 'proved': STATS['z3'] += 1; return r2
    r = r2
  if quick: return r
  if r.status == 'unknown' or not ints:
    r3 = check(assum, goal, False, 'nlsat', 1500, want_model=True)
    if r3.status == 'proved': STATS['z3-nlsat'] += 1; return r3
    if r.status != 'refuted' or (r3.status == 'refuted'): r = r3
  # congruence of reductions / opaque functions with different bodies
  extra = congruence(assum, goal)
  if extra:
    r4 = prove(list(assum) + extra, goal, depth, quick)
    if r4.status == 'proved': return r4
    r = r4
    return r
  # case split
  if depth > 0:
    for c in conds(goal)[:4]:
      STATS['split'] += 1
      ok = True
      sub = None
      for val in (True, False):
        sv = save()
        lit = c if val else lnot(c)
        t.assume_fact(lit)
        mp = {}
        _add_mp(mp, lit)
        try:
          g2 = rebuild(goal, mp)
          # (an assumption that the recorded facts already imply stays for the solvers)
          a2 = [x if y is TRUE else y for x in assum for y in (rebuild(x, mp),)] + [lit]
          sub = prove(a2, g2, depth - 1, quick)
        finally:
          restore(sv)
        if sub.status != 'proved': ok = False; break
      if ok: return Res('proved', 'split+' + sub.backend)
      r = sub if sub.model or not r.model else r
      break
    if r.status != 'proved' and depth == 5 and not _INNER[0] and _INNER[1] > 0:
      _INNER[0] = time.time() + min(15, _INNER[1])
      t0 = time.time()
      try: ri = split_inner(assum, goal, 9)
      finally: _INNER[0] = 0; _INNER[1] -= time.time() - t0
      if ri is not None and ri.status == 'proved': return ri
  if r.status != 'proved' and r.status == 'unknown':
    rc = cvc5_check(assum, goal, 3000)
    if rc.status == 'proved': STATS['cvc5'] += 1; return rc
  return r


_INNER = [0, 60.]     # deadline of the running innermost-first split, seconds left for them


def inner_conds(x):
  """Ground conditions of ites (and sides of max/abs) that contain no ite/max/abs themselves."""
  n = {}
  for y in walk([x]):
    if y.k == 'ite': cs = _lits(y.a[0])
    elif y.k == 'fn' and y.a[0] in ('abs', 'max'): cs = [t.ge0(y.a[1] if y.a[0] == 'abs' else psub(y.a[1], y.a[2]))]
    else: continue
    for c in cs:
      if c in (TRUE, FALSE) or c in n or has_bound(c): continue
      n[c] = 0 if any(z.k == 'ite' or z.k == 'fn' and z.a[0] in ('abs', 'max') for z in walk([c])) else 1
  return [c for c in n if n[c]]


def split_inner(assum, goal, depth):
  """Case split on the conditions over the inputs first: each case folds the conditions built on top of them."""
  if goal is TRUE or any(a is FALSE for a in assum): return Res('proved', 'normaliser')
  if time.time() > _INNER[0] or left() < 0: return None
  cs = inner_conds(goal)
  if not cs or depth == 0:
    r = prove(assum, goal, 1)
    return r if r.status == 'proved' else None
  if check(assum, goal, any(x.sort == 'I' for x in walk([goal])), 'simplex', 150).status == 'proved': return Res('proved', 'z3')
  for val in (True, False):
    sv = save()
    lit = cs[0] if val else lnot(cs[0])
    t.assume_fact(lit)
    mp = {}
    _add_mp(mp, lit)
    try:
      g2 = rebuild(goal, mp)
      r = split_inner([x if y is TRUE else y for x in assum for y in (rebuild(x, mp),)] + [lit], g2, depth - 1)
    finally:
      restore(sv)
    if r is None or r.status != 'proved': return None
  return Res('proved', 'split')


def _add_mp(mp, lit):
  if lit.k == 'and':
    for x in lit.a: _add_mp(mp, x)
    mp[lit] = TRUE
    return
  mp[lit] = TRUE
  mp[lnot(lit)] = FALSE
  if lit.k == 'eq':
    a = t.as_atom(lit.a[0])
    if a is not None and a.k in ('var', 'app', 'red', 'uf'): mp[a] = t.num(a.sort, 0)
  if lit.k == 'iff': pass


def lam_eq(assum, l1, l2):
  """Provable pointwise equality of two lambda arrays."""
  if l1 is l2: return True
  if l1.k != 'lam' or l2.k != 'lam':
    return prove(assum, t.eq(l1, l2) if l1.sort != 'B' else t.iff(l1, l2), 1, True).status == 'proved'
  if l1.a[0] != l2.a[0] or len(l1.a[2]) != len(l2.a[2]): return False
  sk = [skolem(d) for d in l1.a[0]]
  for b1, b2 in zip(l1.a[2], l2.a[2]):
    x, y = inst(b1, l1.a[1], sk), inst(b2, l2.a[1], sk)
    if x is y: continue
    if x.sort == 'K': return False
    g = t.iff(x, y) if x.sort == 'B' else t.eq(x, y)
    if prove(assum, g, 2, False).status != 'proved': return False
  return True


_cong_done = set()


def congruence(assum, goal):
  roots = [goal] + list(assum)
  ground = [x for x in walk(roots) if not has_bound(x)]
  out = []
  reds = [x for x in ground if x.k == 'red']
  gr = [x for x in walk([goal]) if x.k == 'red' and not has_bound(x)]
  n = 0
  for x, y in itertools.combinations(reds, 2):
    if x not in gr and y not in gr: continue
    if x.a[0] != y.a[0] or x.a[1] != y.a[1] or x.sort != y.sort: continue
    key = ('r', x, y, tuple(assum))
    if key in _cong_done: continue
    _cong_done.add(key)
    n += 1
    if n > 12: break
    sk = [skolem(d) for d in x.a[1]]
    b1, b2 = inst(x.a[2], x.a[3], sk), inst(y.a[2], y.a[3], sk)
    if prove(assum, t.eq(b1, b2), 2, True).status == 'proved':
      out.append(t.eq(t.atom(x), t.atom(y)))
    elif prove(assum, t.le(b1, b2), 1, True).status == 'proved':
      out.append(t.le(t.atom(x), t.atom(y)))
    elif prove(assum, t.le(b2, b1), 1, True).status == 'proved':
      out.append(t.le(t.atom(y), t.atom(x)))
  alls = [x for x in ground if x.k == 'all']
  ufs = [x for x in ground if x.k == 'uf']
  n = 0
  for x, y in itertools.combinations(ufs, 2):
    if x.a[0] != y.a[0] or len(x.a[1]) != len(y.a[1]): continue
    if x.a[1] == y.a[1]: continue
    key = ('u', x.a[0], x.a[1], y.a[1], x.a[2], y.a[2], tuple(assum))
    if key in _cong_done: continue
    _cong_done.add(key)
    n += 1
    if n > 30: break
    if all(lam_eq(assum, a, b) for a, b in zip(x.a[1], y.a[1])):
      if x.a[2] == y.a[2]:
        out.append(t.eq(t.atom(x), t.atom(y)) if x.sort != 'B' else t.iff(x, y))
      else:
        d = land(*[t.eq(p, q) for p, q in zip(x.a[2], y.a[2])])
        e = t.eq(t.atom(x), t.atom(y)) if x.sort != 'B' else t.iff(x, y)
        out.append(lor(lnot(d), e))
  return [b for b in out if b is not TRUE]


def satisfiable(assum, ms=2000):
  """'sat' / 'unsat' / 'unknown' for the assumptions (vacuity check)."""
  a = [x for x in assum if x is not TRUE]
  if any(x is FALSE for x in a): return 'unsat'
  if not a: return 'sat'
  for exact, tac in ((False, 'simplex'), (False, 'nlsat'), (True, 'simplex')):
    r = check(a, FALSE, exact, tac, ms)
    if r.status == 'proved': return 'unsat'
    if r.status == 'refuted': return 'sat'
  return 'unknown'
