"""Matrix roots and power iteration.

The n x n root is decided by vp/matrix.py (loop invariants over the algebra generated by the
matrix, every eigenvalue, every p, any number of iterations); the 1 x 1 root and power iteration
by the ordinary engine.  The callee power_iteration enters the root by contract only: some real."""
import contextlib
import os
import time
import z3
from lib import *
from optax._src import linear_algebra as la
from vp import matrix as M
from vp import interp as it
from vp import terms as t

L = 'optax/_src/linear_algebra.py:'
ROOT = L + 'matrix_inverse_pth_root'
ASSUMPTIONS = ['vp/matrix.py: abstract interpretation of the traced n x n root over the commutative algebra generated by the matrix, with inductive loop invariants discharged by z3',
               'matrix_inverse_pth_root: the matrix is symmetric positive semidefinite, so every matrix it computes is a symmetric element of the algebra generated by it (products of such matrices are decided by their eigenvalues)',
               'power_iteration: the iterates do not vanish (a start in the kernel of the matrix)',
               'the size of a matrix for the n x n root is at least 2']
LOOP = {}


@contextlib.contextmanager
def callee(c):
  """power_iteration by its contract (a real number for the eigenvalue)."""
  if not c.symbolic:
    yield; return
  old = la.power_iteration
  used = []

  def stub(matrix, *a, **k):
    used.append(1)
    return c.uf('eigenvector', [matrix], jnp.zeros((matrix.shape[0],))), c.uf('eigenvalue', [matrix], jnp.zeros(()))
  la.power_iteration = stub
  try: yield
  finally: la.power_iteration = old
  if not used: raise Unsupported('power_iteration is not called')


def damped(c, A, ridge, seed):
  if not c.symbolic: np.random.seed(seed)
  with callee(c): ev = la.power_iteration(matrix=A, num_iters=100, error_tolerance=1e-6)[1]
  return A + ridge * jnp.maximum(ev, 1e-16) * jnp.eye(A.shape[0])


def params(c):
  p = c.int('p', 1, 2 ** 20, gen=(lambda r: int(r.integers(1, 9))) if not c.symbolic else None)
  ridge = c.real('ridge', 0, lo_open=True, gen=(lambda r: float(10 ** r.uniform(-6, -1))) if not c.symbolic else None)
  return p, ridge


@contract('matrix_inverse_pth_root 1x1', [ROOT])
def one(c):
  A = c.array('A', (1, 1), pos=True)
  p, ridge = params(c)
  seed = int(np.random.randint(2 ** 30))
  D = damped(c, A, ridge, seed)
  c.require(D[0, 0] > 0)
  if not c.symbolic: np.random.seed(seed)
  with callee(c): H, err = la.matrix_inverse_pth_root(A, p, ridge_epsilon=ridge)
  c.eq('log of the root', p * jnp.log(H), -jnp.log(D), dtype=False)
  c.holds('positive', H > 0)
  c.eq('error', err, 0, dtype=False)


def spd(c, lo=0.0):
  """Concrete: a random symmetric positive (semi)definite matrix."""
  n = int(c.rng.integers(2, 7))
  q, _ = np.linalg.qr(c.rng.normal(size=(n, n)))
  w = 10 ** c.rng.uniform(-2, 2, size=n)
  if c.rng.random() < 0.3: w[0] = 0
  return jnp.asarray((q * w) @ q.T), w


def tight(c): return float(c.rng.choice([1e-6, 1e-3, 0.1]))


@contract('matrix_inverse_pth_root', [ROOT, ROOT + '.mat_power'], concrete_only=True, samples=20)
def root(c):
  """Concrete companion of the matrix proof (extra)."""
  A, w = spd(c)
  c.inputs['A'] = np.asarray(A)
  p, ridge = params(c)
  n = int(c.rng.choice([0, 1, 2, 5, 20, 100])); tol = tight(c)
  c.inputs['iterations'] = n; c.inputs['tolerance'] = tol
  seed = int(c.rng.integers(2 ** 30))
  D = damped(c, A, ridge, seed)
  np.random.seed(seed)
  H, err = la.matrix_inverse_pth_root(A, p, num_iters=n, ridge_epsilon=ridge, error_tolerance=tol)
  R = np.linalg.matrix_power(np.asarray(H, np.float64), int(p)) @ np.asarray(D, np.float64) - np.eye(len(w))
  c.holds('residual at most the reported error', jnp.asarray(float(np.abs(R).max()) <= float(err) * 1.0001 + 1e-5))
  # a well-conditioned matrix with room to converge
  q, _ = np.linalg.qr(c.rng.normal(size=(4, 4)))
  w = c.rng.uniform(1, 3, size=4)
  B = (q * w) @ q.T
  H, err = la.matrix_inverse_pth_root(jnp.asarray(B), p)
  c.holds('converges', jnp.asarray(float(err) <= 1e-3))
  c.holds('the root', jnp.asarray(bool(np.allclose(np.asarray(H), (q * w ** (-1.0 / int(p))) @ q.T, atol=2e-3))))


def body(c):
  """The n x n root for the matrix interpreter: damped matrix, power, result, reported error."""
  A = c.array('A', ('n', 'n'))
  p, ridge = c.int('p', 1, 2 ** 20), c.real('ridge', 0, lo_open=True)
  k, tol = c.int('k', 0, 2 ** 30), c.real('tol')
  D = damped(c, A, ridge, 0)
  with callee(c): H, err = la.matrix_inverse_pth_root(A, p, num_iters=k, ridge_epsilon=ridge, error_tolerance=tol)
  c.outs.append(('matrix', '', [D, jnp.asarray(p), jnp.asarray(ridge), H, err]))


def decide():
  from vp import contract as C
  from vp import run
  run.reset()
  path = C.trace_once(body, {}, [])
  if path.err is not None: raise Unsupported('%s: %s' % (type(path.err).__name__, str(path.err)[:200]))
  if path.ctx.taken: raise Unsupported('the code branches on values')
  w = M.World(); I = M.MInterp(w)
  j = path.closed.jaxpr
  first = sum(len(arrs) for k, _, arrs in path.ctx.outs if k != 'matrix')
  if [k for k, _, _ in path.ctx.outs][-1] != 'matrix': raise Unsupported('order of outputs')
  get = lambda a, b: I.eval(j.replace(outvars=j.outvars[first + a:first + b]), path.closed.consts, ())
  D, p, ridge = get(0, 3)
  w.facts += [w.mats['A'] >= 0, ridge > 0]
  base = z3.Real('damped')
  w.facts.append(base == D.e)
  if w.prove([], base > 0) is not True: return [('damped matrix is positive definite', False, '')]
  w.facts.append(base > 0)
  w.templates = [(p, base)]
  H, err = get(3, 5)
  if not isinstance(H, M.Mat): raise Unsupported('result is not a matrix')
  goal = err >= w.maxabs(M.IP(H.e, p) * base - 1)
  flags = [z3.Bool(x) for x in sorted(M._bools(H.e))]
  out = [('damped matrix is positive definite', True, '')]
  r = w.prove_split([], goal, flags)
  out.append(('residual of the returned root at most the reported error', r is True, 'loop invariants kept: %s; queries %d' % (w.kept, w.queries)))
  # on the path that ends without the error rising, the error is exactly max |H^p A - I|
  w.cover = w.queries
  return out


def extra(e, tier, seed):
  t0 = time.time()
  try:
    rs = decide()
  except Exception as ex:
    if os.environ.get('VP_TRACE'): raise
    e.unsupported.append(('matrix_inverse_pth_root n x n', {}, '%s: %s' % (type(ex).__name__, str(ex)[:300])))
    rs = []
  for nm, ok, msg in rs: yield nm, ok, msg
  if 'counted' in LOOP: yield 'power_iteration runs at most num_iters steps', LOOP['counted'], LOOP.get('why', '')


# ---------------------------------------------------------------- power iteration
def unknown(nm, a):
  k = it.kind(a.dtype)
  return it.SArr(a.shape, a.dtype, lambda idx: it.X(t.app('R', nm, idx)) if k == 'R' else t.app(k, nm, idx))


def hook(interp, cond, bodyf, carry, av):
  """The loop is entered (num_iters >= 1), so its result is one step from some state."""
  c0 = cond(list(carry))
  if c0 is t.FALSE: return list(carry)
  if c0 is not t.TRUE: raise Unsupported('power iteration: the first test')

  def state(pick):
    S = []
    for n, a in enumerate(carry):
      nm = 'w' if n == pick else 'S%d' % n
      if it.kind(a.dtype) == 'I' and not a.shape: t.IRANGE[nm] = (0, 2 ** 31 - 1)
      S.append(unknown(nm, a))
    return S
  vecs = [n for n, a in enumerate(carry) if len(a.shape) == 1 and it.kind(a.dtype) == 'R']
  S = state(None)
  S1 = bodyf(list(S))
  # the vector the step starts from
  from vp import smt
  used = set()
  for a in S1:
    x = a([smt.skolem(d) for d in a.shape])
    for y in smt.walk([x.v if isinstance(x, it.X) else x]):
      if y.k in ('app', 'var'): used.add(y.a[0])
  dep = [n for n in vecs if 'S%d' % n in used]
  if len(dep) != 1: raise Unsupported('power iteration: %d state vectors' % len(dep))
  S = state(dep[0])
  guard = cond(list(S))
  S1 = bodyf(list(S))
  ok = False
  for n, a in enumerate(carry):
    if it.kind(a.dtype) != 'I' or a.shape: continue
    x, y, z = carry[n](()), S[n](()), S1[n](())
    N = t.var('I', 'num_iters')
    step = t.psub(z, y)
    if t.const_val(x) == 0 and smt.prove([guard], t.land(t.lt(y, N))).status == 'proved' and smt.prove([guard, t.lt(y, N)], t.eq(step, t.I(1))).status == 'proved': ok = True
  LOOP['counted'] = ok
  return list(S1)


@contract('power_iteration', [L + 'power_iteration'], while_hook=hook, samples=8)
def power(c):
  if c.symbolic:
    A = c.array('A', ('n', 'n')); w0 = c.array('w', ('n',)); v0 = c.array('v0', ('n',))
    N = c.int('num_iters', 1, 2 ** 31 - 2)
    c.require(jnp.sum(w0 * w0) > 0)
    w = w0 / jnp.sqrt(jnp.sum(w0 * w0))
    Aw = jnp.sum(A * w[None, :], axis=1)
    c.require(jnp.sum(Aw * Aw) > 0)

    class Draw:
      def astype(self, d): return v0.astype(d)
    old = np.random.uniform
    np.random.uniform = lambda *a, **k: Draw()
    try: v, s = la.power_iteration(A, num_iters=N, error_tolerance=c.real('tol'))
    finally: np.random.uniform = old
  else:
    A, ev = spd(c)
    c.inputs['A'] = np.asarray(A)
    k = int(c.rng.integers(1, 6)); seed = int(c.rng.integers(2 ** 30))
    c.inputs['iterations'] = k
    np.random.seed(seed)
    w = np.random.uniform(-1.0, 1.0, A.shape[0])
    w = jnp.asarray(w / np.linalg.norm(w))
    if k > 1:
      np.random.seed(seed)
      w = la.power_iteration(A, num_iters=k - 1, error_tolerance=-1.)[0]
    np.random.seed(seed)
    v, s = la.power_iteration(A, num_iters=k, error_tolerance=-1.)
    Aw = A @ w
    if float(jnp.sum(Aw * Aw)) < 1e-12: raise Reject('vanishing iterate')
    # a matrix with a gap: the largest eigenvalue
    q, _ = np.linalg.qr(c.rng.normal(size=(4, 4)))
    B = (q * np.array([2., 0.9, 0.5, 0.1])) @ q.T
    v2, s2 = la.power_iteration(jnp.asarray(B))
    c.holds('largest eigenvalue', jnp.abs(s2 - 2.) <= 1e-3)
    c.holds('its eigenvector', jnp.abs(jnp.abs(v2 @ q[:, 0]) - 1) <= 1e-2)
  c.eq('unit vector', jnp.sum(v * v), 1.0, dtype=False)
  c.eq('Rayleigh quotient', s, jnp.sum(w * Aw), dtype=False)
  c.eq('one step of the iteration', v, Aw / jnp.sqrt(jnp.sum(Aw * Aw)), dtype=False)
