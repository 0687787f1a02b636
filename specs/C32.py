"""Piecewise and one-cycle schedules."""
import itertools
from lib import *
S = 'optax/_src/schedule.py:'
IM = 2**29
ORD = [()] + [p for k in ((1, 2, 3, 4) if THOROUGH else (1, 2, 3)) for p in itertools.permutations(range(k))]
LONG = [(2, 0, 3, 1), (3, 1, 5, 0, 4, 2)]


def bounds(c, k, lo=0):
  b = [c.int('b%d' % i, lo, IM) for i in range(k)]
  if not c.symbolic:
    b = sorted(b)
    for i in range(1, k): b[i] = max(b[i], b[i - 1] + 1)
  for x, y in itertools.combinations(b, 2): c.require(x < y)
  return b


@contract('piecewise_constant', [S + 'piecewise_constant_schedule'], cross(order=ORD + ["none"], count=["array", "python"]) + cross(order=LONG, count=["array"]))
def pconst(c):
  """Increasing boundaries handed over in any order; factors >= 0."""
  o = () if c.v['order'] == 'none' else c.v['order']
  a = c.real('init')
  b = bounds(c, len(o), -IM); s = [c.real('s%d' % i, 0) for i in range(len(o))]
  f = optax.piecewise_constant_schedule(a, {b[i]: s[i] for i in o}) if c.v['order'] != 'none' else optax.piecewise_constant_schedule(a)
  n = c.count('n', 0, IM) if c.v['count'] == 'array' else c.int('n', 0, IM)
  w = jnp.asarray(a)
  for x, y in zip(b, s): w = w * jnp.where(n >= x, y, 1.0)
  c.eq('value', jnp.asarray(f(n)), w, dtype=False)


def close(c, name, v, want, knots):
  """Interpolation in float32 is exact up to the size of the knots, not of the value."""
  if c.symbolic: return c.eq(name, v, want, dtype=False)
  m = max([abs(float(k)) for k in knots] + [1e-30])
  c.eq(name, 1 + (v - want) / m, jnp.asarray(1.0), dtype=False)


@contract('piecewise_interpolate', [S + 'piecewise_interpolate_schedule'], cross(order=(ORD[:6] if not THOROUGH else ORD) + LONG, kind=['linear', 'cosine'], none=[False]) + cross(order=[()], kind=['linear', 'cosine'], none=[True]))
def pint(c):
  o = c.v['order']; a = c.real('init')
  b = bounds(c, len(o)); s = [c.real('s%d' % i, 0) for i in range(len(o))]
  f = optax.piecewise_interpolate_schedule(c.v['kind'], a, {b[i]: s[i] for i in o}) if not c.v['none'] else optax.piecewise_interpolate_schedule(c.v['kind'], a)
  n = c.count('n', 0, IM)
  v = jnp.asarray(f(n))
  # value at each boundary, and between
  lo, val = 0, jnp.asarray(a)
  want = None
  pieces = []
  for x, y in zip(b, s):
    pieces.append((lo, x, val, val * y)); lo, val = x, val * y
  want = val
  for l, h, p, q in reversed(pieces):
    t = (n - l) / jnp.maximum(h - l, 1)
    t = t if c.v['kind'] == 'linear' else (1 - jnp.cos(jnp.pi * t)) / 2
    want = jnp.where(n < h, p + (q - p) * t, want)
  close(c, 'value', v, want, [a, val] + [p[2] for p in pieces])


@contract('piecewise.errors', [S + 'piecewise_constant_schedule', S + 'piecewise_interpolate_schedule'], [{}])
def bad(c):
  a, s, t = c.real('init'), c.real('s', 0), c.real('t', hi=0)
  if not c.symbolic and t == 0: t = -1.0
  c.require(t < 0)
  for d in ({1: s, 5: t}, {3: t}, {3: t, 4: s, 5: s}):
    c.raises('constant', ValueError, lambda: optax.piecewise_constant_schedule(a, d))
    for k in ('linear', 'cosine'):
      c.raises(k, ValueError, lambda: optax.piecewise_interpolate_schedule(k, a, d))
  for k in ('cos', '', 'Linear', None):
    c.raises('kind', ValueError, lambda: optax.piecewise_interpolate_schedule(k, a, {3: s}))


STEPS = [1, 2, 3, 4, 5, 7, 10, 30] + ([6, 8, 9, 20, 33, 100, 1000] if THOROUGH else [])


@contract('onecycle', [S + 'linear_onecycle_schedule', S + 'cosine_onecycle_schedule'], cross(kind=['linear', 'cosine'], steps=STEPS, h=['default', 'given']) + cross(kind=['linear', 'cosine'], steps=[1, 3, 10], h=[(0.5, 0.75), (0.1, 0.2), (0.0, 0.5), (0.3, 1.0), (1.0, 1.0)]))
def one(c):
  """Cycle lengths and percentages are enumerated; peak, factors and the count are arbitrary."""
  T, k = c.v['steps'], c.v['kind']
  peak = c.real('peak')
  div, fin = (25.0, 1e4) if c.v['h'] == 'default' else (c.real('div', 0, lo_open=True), c.real('fin', 0, lo_open=True))
  p0, p1 = c.v['h'] if isinstance(c.v['h'], tuple) else (0.3, 0.85)
  kw = {} if c.v['h'] == 'default' else dict(div_factor=div, final_div_factor=fin)
  if isinstance(c.v['h'], tuple):
    kw['pct_start'] = p0
    if k == 'linear': kw['pct_final'] = p1
  f = (optax.linear_onecycle_schedule if k == 'linear' else optax.cosine_onecycle_schedule)(T, peak, **kw)
  i0, i1 = int(p0 * T), int(p1 * T)
  pts = [(0, peak / div), (i0, peak)] + ([(i1, peak / div)] if k == 'linear' else []) + [(T, peak / (div * fin))]
  pts = list(dict(pts).items())     # coinciding boundaries: the later factor applies at once
  n = c.count('n', 0, IM)
  v = jnp.asarray(f(n))
  c.finite('finite', v)
  want = jnp.asarray(pts[-1][1])
  for (l, p), (h, q) in reversed(list(zip(pts, pts[1:]))):
    t = (n - l) / max(h - l, 1)
    t = t if k == 'linear' else (1 - jnp.cos(jnp.pi * t)) / 2
    want = jnp.where(n < h, p + (q - p) * t, want)
  ks = [y for _, y in pts] + [peak, peak / div]
  close(c, 'value', v, want, ks)
  if i0 > 0: close(c, 'start', jnp.asarray(f(0)), jnp.asarray(peak / div), ks)
  if i0 < (i1 if k == 'linear' else T): close(c, 'peak', jnp.asarray(f(i0)), jnp.asarray(peak), ks)
  close(c, 'end', jnp.asarray(f(T)), jnp.asarray(peak / (div * fin)), ks)


@contract('onecycle.errors', [S + 'linear_onecycle_schedule', S + 'cosine_onecycle_schedule'], [{}])
def oerr(c):
  t = c.int('steps', -IM, 0)
  for f in (optax.linear_onecycle_schedule, optax.cosine_onecycle_schedule):
    c.raises('non-positive', ValueError, lambda: f(t, 1.0))
