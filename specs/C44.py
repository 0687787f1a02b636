"""Purity: frame conditions of init and update.

For every transformation and arbitrary state: a call of init or update changes nothing that
outlives it -- not its arguments (identity and contents of every container, bytes of every
array), not what the transformation's functions can reach (closures, defaults, attributes,
bound objects), not the module variables of optax -- and two calls with the same arguments,
with calls for another tree in between or on a freshly built transformation, return the same
values. Since a Python function can only remember through one of these, this covers every
call history. The same for schedules."""
import sys
import types
from lib import *

BUDGET = 420


def reach(*roots):
  """Contents of everything mutable reachable from functions, closures and containers."""
  out, seen = [], set()

  def go(x, path):
    if isinstance(x, (int, float, str, bytes, type(None), np.generic)): out.append((path, repr(x))); return
    if id(x) in seen: out.append((path, 'seen', id(x))); return
    if isinstance(x, types.ModuleType) or isinstance(x, type): out.append((path, id(x))); return
    seen.add(id(x)); keep.append(x)
    if isinstance(x, types.FunctionType):
      if not (x.__module__ or '').startswith(('optax', 'C44', 'lib')): out.append((path, id(x))); return
      out.append((path, 'f', id(x)))
      for n, cell in zip(x.__code__.co_freevars, x.__closure__ or ()):
        try: go(cell.cell_contents, path + '.' + n)
        except ValueError: out.append((path + '.' + n, 'unset'))
      go(x.__defaults__, path + '.defaults'); go(x.__kwdefaults__, path + '.kwdefaults'); go(dict(x.__dict__), path + '.attrs')
      return
    if isinstance(x, types.MethodType): go(x.__func__, path + '.func'); go(x.__self__, path + '.self'); return
    if isinstance(x, dict):
      out.append((path, 'd', len(x)))
      for k, v in list(x.items()): go(v, '%s[%r]' % (path, k))
      return
    if isinstance(x, (list, tuple, set, frozenset)):
      out.append((path, type(x).__name__, len(x)))
      for i, v in enumerate(list(x)): go(v, '%s[%d]' % (path, i))
      return
    if isinstance(x, np.ndarray): out.append((path, 'np', x.tobytes())); return
    if type(x).__module__.startswith('optax') and hasattr(x, '__dict__'):
      out.append((path, 'o', id(x))); go(dict(x.__dict__), path + '.dict'); return
    out.append((path, id(x)))
  keep = []
  for i, r in enumerate(roots): go(r, '%d' % i)
  return out, keep


def globals_():
  r = {}
  for n, m in list(sys.modules.items()):
    if n.startswith('optax') and 'test' not in n:
      r[n] = {k: v for k, v in vars(m).items() if not k.startswith('__')}
  return r


def containers(x, out):
  if isinstance(x, dict): out.add(id(x)); [containers(v, out) for v in x.values()]
  elif isinstance(x, list): out.add(id(x)); [containers(v, out) for v in x]
  elif isinstance(x, tuple): [containers(v, out) for v in x]
  return out


class Frame:
  """c, roots of the callee, arguments: nothing changes while in the block."""
  def __init__(self, c, name, roots, *args): self.c = c; self.name = name; self.roots = roots; self.args = args

  def __enter__(self):
    self.before = reach(self.roots, globals_()); self.a = snapshot(*self.args)
    return self

  def __exit__(self, t, *_):
    if t is not None: return
    b, keep = self.before
    a, _ = reach(self.roots, globals_())
    diff = [x for x in a if x not in set(b)] + [x for x in b if x not in set(a)]
    self.c.check(self.name + ': keeps no hidden state', a == b, str(diff[:2])[:300])
    self.c.check(self.name + ': arguments unmodified', snapshot(*self.args) == self.a)


OTHER = {'o': [Leaf('a'), {'q': Leaf('b', 'a')}]}
NOPAIR = list(ZOO)


def mutable(x): return tmap(lambda v: np.array(v), x)


@contract('pure', sorted({z.target for z in ZOO.values()}), cross(tx=list(ZOO), tree=['nest'] + (['wide', 'scalar', 'empty'] if THOROUGH else [])))
def pure(c):
  z = ZOO[c.v['tx']]
  if c.v['tree'] == 'empty' and z.batch: return
  m = Memo(c)
  tx = z.make(m)
  g, p, _ = zoo_args(c, z)
  with Frame(c, 'init', tx, p): s0 = tx.init(p)
  s = any_state(c, s0)
  with Frame(c, 'update', tx, g, s, p): u1, s1 = tx.update(g, s, p)
  held = set()
  for x in reach(tx)[1]:
    if isinstance(x, (dict, list)): held.add(id(x))
  c.check('state shares no container with the transformation', not (containers((s0, s1, u1), set()) & held))
  # calls for another tree in between
  og, op, _ = zoo_args(c, z, 'og', 'op', like=OTHER)
  os_ = tx.init(op)
  with Frame(c, 'other', tx, og, os_, op, g, s, p, s1, u1): tx.update(og, os_, op)
  t1 = tx.init(p)
  c.eq('init again', t1, s0)
  u2, s2 = tx.update(g, s, p)
  c.eq('updates again', u2, u1); c.eq('state again', s2, s1)
  fresh = z.make(m)
  c.eq('fresh init', fresh.init(p), s0)
  u3, s3 = fresh.update(g, s, p)
  c.eq('fresh updates', u3, u1); c.eq('fresh state', s3, s1)
  # the state after the step is used, then the old one again
  with Frame(c, 'next', tx, g, s1, p, s): tx.update(g, s1, p)
  u4, s4 = tx.update(g, s, p)
  c.eq('old state again', u4, u1); c.eq('old state, state', s4, s1)
  if not c.symbolic and not c.v['tx'].endswith('acc16'):
    # writable arrays as arguments
    a = [mutable(x) for x in (g, s, p)]
    b = snapshot(*a)
    u5, s5 = tx.update(*a)
    c.check('writable arrays unmodified', snapshot(*a) == b)
    c.eq('writable arrays', u5, u1)
    u6, s6 = tx.update(*a)
    c.eq('writable arrays again', u6, u1)
    c.check('writable arrays unmodified again', snapshot(*a) == b)
    tx.init(a[2]); c.check('init leaves writable arrays', snapshot(*a) == b)


# --------------------------------------------------------------------- schedules
def SCH(c):
  r, i = c.real, c.int
  b = lambda *k: {x: r('b%d' % x, 0, lo_open=True) for x in k}
  cs = lambda nm: r(nm, 0, 1, lo_open=True)
  S = 'optax/_src/schedule.py:'
  return {
      'constant_schedule': (lambda: [r('v')], optax.constant_schedule),
      'polynomial_schedule': (lambda: [r('a'), r('b'), 2, i('T', 1, 10**6), i('t0', 0, 10**6)], optax.polynomial_schedule),
      'linear_schedule': (lambda: [r('a'), r('b'), i('T', 1, 10**6), i('t0', 0, 10**6)], optax.linear_schedule),
      'piecewise_constant_schedule': (lambda: [r('a'), b(3, 1, 9)], optax.piecewise_constant_schedule),
      'exponential_decay': (lambda: [r('a'), i('T', 1, 10**6), r('d', 0, lo_open=True), 3, True, r('e')], optax.exponential_decay),
      'cosine_decay_schedule': (lambda: [r('a'), 7, r('al', 0, 1)], optax.cosine_decay_schedule),
      'piecewise_interpolate_schedule': (lambda: ['linear', r('a'), b(5, 1, 9)], optax.piecewise_interpolate_schedule),
      'piecewise_interpolate_schedule.cosine': (lambda: ['cosine', r('a'), b(5, 1, 9)], optax.piecewise_interpolate_schedule),
      'linear_onecycle_schedule': (lambda: [100, r('pk', 0, lo_open=True)], optax.linear_onecycle_schedule),
      'cosine_onecycle_schedule': (lambda: [100, r('pk', 0, lo_open=True)], optax.cosine_onecycle_schedule),
      'join_schedules': (lambda: [[sched(c, 'f'), sched(c, 'h'), sched(c, 'k')], [4, 11]], optax.join_schedules),
      'warmup_cosine_decay_schedule': (lambda: [r('a'), r('pk', 0, lo_open=True), 5, 20, r('e')], optax.warmup_cosine_decay_schedule),
      'warmup_exponential_decay_schedule': (lambda: [r('a'), r('pk'), 5, 20, r('d', 0, 1, lo_open=True)], optax.warmup_exponential_decay_schedule),
      'sgdr_schedule': (lambda: [[dict(init_value=r('a'), peak_value=r('pk', 0, lo_open=True), decay_steps=20, warmup_steps=4, end_value=0.),
                                  dict(init_value=r('a2'), peak_value=r('pk2', 0, lo_open=True), decay_steps=30, warmup_steps=5, end_value=0.)]], optax.sgdr_schedule),
  }


@contract('schedules', ['optax/_src/schedule.py:' + n.split('.')[0] for n in SCH(types.SimpleNamespace(real=0, int=0))],
          cross(s=list(SCH(types.SimpleNamespace(real=0, int=0)))), depth=3)
def schedules(c):
  args, make = SCH(c)[c.v['s']]
  args = args()
  with Frame(c, 'construction', make, *args): f = make(*args)
  n, k = c.count('n'), c.count('k')
  with Frame(c, 'call', f, *args): a = f(n)
  with Frame(c, 'other call', f, *args): f(k)
  c.eq('again', f(n), a)
  c.eq('fresh', make(*args)(n), a)
  # the factory keeps nothing of an earlier construction either
  other = make(*args); other(k)
  c.eq('after another', f(n), a)
