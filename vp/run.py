"""The verification engine: paths -> obligations -> verdicts -> evidence."""
import importlib.util
import json
import os
import sys
import time
import traceback
import zlib

from . import boot  # noqa: F401
import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import enable_x64
from jax.experimental.export import shape_poly as sp

from . import terms as t
from . import interp as it
from . import smt
from . import contract as C
from .interp import Unsupported
from .terms import TRUE, FALSE, land, lor, lnot

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LIMITATION = (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError,
              jax.errors.TracerIntegerConversionError, jax.errors.UnexpectedTracerError,
              sp.InconclusiveDimensionOperation, NotImplementedError, Unsupported, t.TermTooBig,
              RecursionError)


class Obl:
  def __init__(self, contract, variant, path, name, status, backend='', note='', model=None, secs=0.0, text=''):
    self.contract = contract; self.variant = variant; self.path = path; self.name = name
    self.status = status; self.backend = backend; self.note = note; self.model = model
    self.secs = secs; self.text = text


def reset():
  t.reset(); smt.IVDIM.clear(); smt.SKOLEMS.clear(); smt._cong_done.clear()


def array_fact(b, frs):
  """Sign facts about whole symbolic arrays from a quantified precondition body."""
  done = True
  parts = b.a if b.k == 'and' else (b,)
  fs = {t.as_atom(f) for f in frs}
  for x in parts:
    y, sgn = None, None
    if x.k in ('ge', 'gt', 'eq'): y = x.a[0]; sgn = {'ge': (False, True, True), 'gt': (False, False, True), 'eq': (False, True, False)}[x.k]
    elif x.k == 'not' and x.a[0].k == 'eq': y = x.a[0].a[0]; sgn = (True, False, True)
    at = t.as_atom(y) if y is not None and y.k == 'poly' else None
    if at is None and y is not None and t.as_atom(t.pneg(y)) is not None:
      at = t.as_atom(t.pneg(y)); sgn = (sgn[2], sgn[1], sgn[0])
    if at is not None and at.k == 'app' and len(at.a[1]) == len(frs) and {t.as_atom(i) for i in at.a[1]} == fs:
      o = t.FACTS.get(at.a[0], (True, True, True))
      t.set_fact(at.a[0], *[p and q for p, q in zip(o, sgn)])
    else: done = False
  return done


class PathRun:
  """Symbolic evaluation of one path."""

  def __init__(self, path, contract, known=0):
    reset()
    it.ROUND[0] = bool(contract.opts.get('rounding'))
    self.path = path
    self.assum = []
    ctx = path.ctx
    self.interp = it.Interp(while_hook=contract.while_hook)
    for d, v in ctx.dims.items(): it.dim_term(v)
    res = self.interp.run(path.closed, [])
    nout = sum(len(a) for _, _, a in ctx.outs)
    self.condvals = []
    self.branch = []      # can the alternative / the decision taken occur
    self.reqs = 0
    pos = ncond = 0

    def conds(k):
      """Decisions taken before output k, in program order."""
      nonlocal ncond
      while ncond < len(ctx.taken) and (k is None or ctx.outat[ncond] <= k):
        b = res[nout + ncond](())
        self.condvals.append(b)
        self.branch.append(self._branch(b, ctx.taken[ncond]) if ncond >= known else None)
        lit = b if ctx.taken[ncond] else lnot(b)
        self.assum.append(lit)
        t.assume_fact(lit)
        ncond += 1

    for k, (kind, name, arrs) in enumerate(ctx.outs):
      if kind == 'req':
        conds(k)
        a = res[pos]
        if not a.shape:
          b = a(())
          t.assume_fact(b)
          self.assum.append(b)
          self.reqs += 1
        else:
          frs = t.ranged(a.shape)
          b = a(frs)
          if not array_fact(b, frs):
            self.assum.append(t.forall_(list(a.shape), frs, b))
      pos += len(arrs)
    conds(None)
    self.assum = [b for b in dict.fromkeys(self.assum) if b is not TRUE]
    # evaluate again with all facts recorded
    self.interp2 = it.Interp(while_hook=contract.while_hook)
    self.res = self.interp2.run(path.closed, [])
    self.assum = [smt.rebuild(b) if b.k == 'all' else b for b in self.assum]

  def _branch(self, b, val):
    """Whether the alternative of a decision, and the decision as taken, can occur
    under the earlier decisions and the preconditions stated before it."""
    if b is TRUE or b is FALSE:
      same = (b is TRUE) == val
      return not same, same
    if self.reqs < 2: return True, True
    unsat = lambda l: l is FALSE or smt.satisfiable(self.assum + [l], 300) == 'unsat'
    lit = b if val else lnot(b)
    if unsat(lit): return True, False
    return not unsat(lnot(lit)), True

  def goals(self):
    pos = 0
    for kind, name, arrs in self.path.ctx.outs:
      vals = self.res[pos:pos + len(arrs)]
      pos += len(arrs)
      if kind == 'req': continue
      if kind == 'keys':
        yield kind, name, vals, None
        continue
      if kind == 'noise':
        yield kind, name, vals, [smt.skolem(d) for d in vals[0].shape]
        continue
      a = vals[0]
      idx = [smt.skolem(d) for d in a.shape]
      yield kind, name, vals, idx


def goal_term(kind, vals, idx):
  a = vals[0]
  x = a(idx)
  if kind == 'bool': return x
  if kind == 'fin': return x.fin()
  b = vals[1]
  y = b(idx)
  if isinstance(x, it.X): return it.xsame(x, y)
  if it.kind(a.dtype) == 'B': return t.iff(x, y)
  if it.kind(a.dtype) == 'K': return t.blit(x is y)
  return t.eq(x, y)


def noise_goal(vals, idx):
  """got = base + scale*N where N is the normal draw occurring in got."""
  got, base, scale = vals
  e, b, s = got(idx), base(idx), scale(())
  N = [x for x in smt.walk([e.v]) if x.k == 'fn' and x.a[0] == 'normal']
  if len(N) != 1: return None, '%d normal draws in one element' % len(N)
  ids = set(smt.walk([x for x in N[0].a[2:] if isinstance(x, t.T)] + [y for x in N[0].a[2:] if isinstance(x, tuple) for y in x]))
  for i in idx:
    if t.as_atom(i) is not None and t.as_atom(i) not in ids: return None, 'elements share their noise'
  w = t.padd(b.v, t.pmul(s.v, t.atom(N[0])))
  return t.eq(e.v, w), ''


def check_keys(vals):
  """Noise keys of the leaves and the new key: distinct proper descendants of the
  old key, none an ancestor of another.  Returns (ok, message)."""
  *noises, newk, oldk = vals
  def asK(a):
    if it.kind(a.dtype) == 'K': return a(())
    return it.k_wrap(a((t.I(0),)), a((t.I(1),)))
  old, new = asK(oldk), asK(newk)

  def anc(k):
    out = []
    while k.k in ('split', 'fold'):
      k = k.a[0]; out.append(k)
    return out
  keys = []
  for n, a in enumerate(noises):
    idx = [smt.skolem(d) for d in a.shape]
    e = a(idx)
    e = e.v if isinstance(e, it.X) else e
    ks = {x.a[1] for x in smt.walk([e]) if x.k == 'fn' and x.a[0] in ('normal', 'uniform', 'bits')}
    if not ks: return False, 'leaf %d carries no noise' % n
    for k in ks: keys.append((n, k))
  al = keys + [('new', new)]
  for n, k in al:
    if old not in anc(k): return False, 'key of %s (%s) is not derived from the old key' % (n, t.show(k))
  for i, (n, k) in enumerate(al):
    for m, l in al[i + 1:]:
      if k is l: return False, 'leaves %s and %s share the key %s' % (n, m, t.show(k))
      if k in anc(l) or l in anc(k): return False, 'keys of %s and %s are nested' % (n, m)
  return True, ''


def concrete_model(model, ivals=None):
  """Solver model (atoms -> values) as input overrides by name."""
  out = {}
  ev = {}
  if not model: return out

  def ival(p):
    s = 0
    for m, c in p.a[0]:
      x = c
      for a, e in m:
        v = model.get(a)
        if v is None: return None
        x = x * int(v) ** e
      s += x
    return int(s)
  for a, v in model.items():
    if a.k == 'var': out[a.a[0]] = v
    elif a.k == 'app':
      ix = [ival(p) for p in a.a[1]]
      if None in ix: continue
      out.setdefault(a.a[0], {})
      if isinstance(out[a.a[0]], dict): out[a.a[0]][tuple(ix)] = v
  return out


class Engine:
  def __init__(self, prop, tier='quick', seed=1, budget=None):
    self.prop = prop; self.tier = tier; self.seed = seed
    self.obls = []
    self.unsupported = []
    self.paths = 0
    self.infeasible = 0
    self.t0 = time.time()
    self.budget = budget or (75 if tier == 'quick' else 600)
    self.concrete_runs = 0
    self.concrete_rejects = 0
    self.concrete_obls = 0
    self.violations = []
    self.vacuity = []
    self.cover = []
    self.dims = {}

  def left(self): return self.budget - (time.time() - self.t0)

  # -- symbolic
  def verify(self, c, v):
    if c.opts.get('concrete_only'): return
    todo = [[]]
    seen = 0
    feasible = 0
    nbad = 0
    rejected = 0
    while todo:
      prefix = todo.pop()
      seen += 1
      if seen > c.opts.get('max_paths', 96):
        self.unsupported.append((c.name, v, 'more than %d paths' % seen)); break
      try:
        path = C.trace_once(c.body, v, prefix)
      except LIMITATION as e:
        self.unsupported.append((c.name, v, repr(e)[:300])); return
      ctx = path.ctx
      self.paths += 1
      if ctx.dims: self.dims[c.name] = True
      try:
        pr = PathRun(path, c, len(prefix))
      except LIMITATION as e:
        self.unsupported.append((c.name, v, '%s: %s' % (type(e).__name__, str(e)[:300])))
        pr = None
      for i in range(len(prefix), len(ctx.taken)):
        other = ctx.taken[:i] + [not ctx.taken[i]]
        if pr is None: todo.append(other); continue
        can, go = pr.branch[i]
        if can: todo.append(other)
        if not go: break      # the decision taken cannot occur: later ones need no alternative
      tag = ''.join('TF'[not b] for b in ctx.taken)
      if isinstance(path.err, (C.Skip, C.Reject)): rejected += 1; continue
      if pr is None: continue
      if any(b is FALSE for b in pr.assum): self.infeasible += 1; continue
      sat = None
      if ctx.taken or path.err is not None:
        sat = smt.satisfiable(pr.assum, 1000)
        if sat == 'unsat': self.infeasible += 1; continue
      if path.err is not None:
        e = path.err
        if isinstance(e, LIMITATION):
          self.unsupported.append((c.name, v, '%s: %s' % (type(e).__name__, str(e)[:300])))
          continue
        self.obls.append(Obl(c, v, tag, 'no exception', 'exception', note='%s: %s' % (type(e).__name__, str(e)[:400]), text=getattr(e, '_tb', '')))
        continue
      feasible += 1
      for nm, ok, msg in ctx.structural:
        self.obls.append(Obl(c, v, tag, nm, 'proved' if ok else 'failed', 'structural', msg))
      first = True
      for kind, nm, vals, idx in self._goals(pr, c, v):
        t1 = time.time()
        try:
          if kind == 'keys':
            ok, msg = check_keys(vals)
            self.obls.append(Obl(c, v, tag, nm, 'proved' if ok else 'failed', 'key algebra', msg)); continue
          if kind == 'noise':
            g, msg = noise_goal(vals, idx)
            if g is None: self.obls.append(Obl(c, v, tag, nm, 'failed', 'noise algebra', msg)); continue
          else: g = goal_term(kind, vals, idx)
          if self.left() < 0:
            self.unsupported.append((c.name, v, '%s: not decided within the time limit' % nm)); continue
          lim = c.opts.get('limit', 25)
          if nbad >= 2: lim = min(lim, 6)
          smt.DEADLINE[0] = time.time() + min(lim, max(3, self.left()))
          r = smt.prove(pr.assum, g, depth=c.opts.get('depth', 5))
          o = Obl(c, v, tag, nm, r.status, r.backend, r.note, None, time.time() - t1, '' if r.status == 'proved' else t.show(g)[:1500])
          o.goal = g
          if r.status not in ('proved', 'refuted') and self.left() < 0:
            self.unsupported.append((c.name, v, '%s: not decided within the time limit' % nm)); continue
          nbad += r.status != 'proved'
          if r.status != 'proved' and r.model: o.model = concrete_model(r.model)
          self.obls.append(o)
        except LIMITATION as e:
          self.unsupported.append((c.name, v, '%s: %s: %s' % (nm, type(e).__name__, str(e)[:300])))
      if feasible == 1:
        s = sat or smt.satisfiable(pr.assum, 1500)
        self.vacuity.append((c.name, v, s))
    if not feasible and not rejected and not nbad and not any(o.contract is c and o.variant is v for o in self.obls) and not any(u[0] == c.name and u[1] is v for u in self.unsupported):
      self.unsupported.append((c.name, v, 'no feasible path'))

  def _goals(self, pr, c, v):
    g = pr.goals()
    while True:
      try:
        yield next(g)
      except StopIteration:
        return
      except LIMITATION as e:
        self.unsupported.append((c.name, v, '%s: %s' % (type(e).__name__, str(e)[:300])))
        return

  # -- concrete
  def concrete(self, c, v, n, seconds, model=None, want=None, x64=True, first=0):
    """Runs the contract on the real code; returns the first failing run or None."""
    end = time.time() + seconds
    for k in range(first, first + n):
      if time.time() > end: break
      seed = zlib.crc32(('%s|%s|%s|%d|%d' % (self.prop, c.name, sorted((a, str(b)) for a, b in v.items()), self.seed, k)).encode())
      f = self.concrete_one(c, v, seed, model if k % 2 == 0 or True else None, x64)
      if f: return dict(seed=seed, model=model, x64=x64, failures=f[0], inputs=f[1])
    return None

  def concrete_one(self, c, v, seed, model=None, x64=True, slack=1):
    rng = np.random.default_rng(seed)
    ctx = C.ConCtx(v, rng, x64=x64, model=model)
    ctx.slack = slack
    if model is None and rng.random() < 0.7: ctx.dims.update({'a': 2, 'b': 3, 'c': 2, 'd': 2})
    old = C.CUR[0]; C.CUR[0] = None
    C.DRAWS[0] = []
    try:
      with enable_x64(x64):
        c.body(ctx)
    except C.Reject:
      self.concrete_rejects += 1
      return None
    except C.Skip:
      return None
    except Exception as e:
      ctx.failures.append(('no exception', '%s: %s' % (type(e).__name__, str(e)[:300])))
    finally:
      C.CUR[0] = old
      C.DRAWS[0] = None
    self.concrete_runs += 1
    self.concrete_obls += ctx.nobl
    if ctx.failures:
      return ctx.failures, {k: np.asarray(x).tolist() if np.size(x) < 40 else 'array %s' % (np.shape(x),) for k, x in ctx.inputs.items()}
    return None


def load(prop):
  path = os.path.join(HERE, 'specs', prop + '.py')
  C.REG.clear()
  spec = importlib.util.spec_from_file_location('spec_' + prop, path)
  m = importlib.util.module_from_spec(spec)
  sys.path.insert(0, os.path.join(HERE, 'specs'))
  spec.loader.exec_module(m)
  return m, list(C.REG)


def jsonable(x):
  if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
  if isinstance(x, (str, int, float, bool)) or x is None: return x
  return str(x)
