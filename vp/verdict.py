"""From obligations to exit code, replay files and evidence."""
import collections
import fnmatch
import json
import os
import time
import zlib

from . import run
from . import smt
from . import contract as C

HERE = run.HERE

TRUSTED = [
    'JAX tracing (jax.make_jaxpr) records the operations the Python code performs; the optax source text itself is executed, nothing is rewritten',
    'vp/interp.py: mathematical semantics of the JAX primitives met (floats are reals extended with NaN/+Inf/-Inf; float rounding, overflow and underflow are not modelled; narrowing float conversions are the identity on values)',
    'vp/terms.py: normaliser for real/integer polynomials, and the axioms for sqrt, exp, log, cos, pow, floor, sums and maxima in vp/smt.py',
    'z3 (and cvc5 where listed) as back end; jax.tree_util as external library',
    'PRNG: key derivation (seed, split, fold_in) treated as a free algebra, samplers as functions of the key',
    'symbolic array dimensions are >= 1 (zero-sized arrays are outside the domain)',
]


def known():
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p): return []
  return [k for k in json.load(open(p)).get('findings', []) if k.get('status') == 'known']


def known_match(prop, cname, variant, oname):
  for k in known():
    if k['property'] != prop: continue
    if k.get('contract') and not fnmatch.fnmatch(cname, k['contract']): continue
    if k.get('obligation') and not fnmatch.fnmatch(oname, k['obligation']): continue
    if any(str(variant.get(a)) != str(b) for a, b in (k.get('variant') or {}).items()): continue
    return k
  return None


def vkey(v): return ','.join('%s=%s' % (a, b) for a, b in sorted(v.items()))


def write_replay(prop, rec):
  d = os.path.join(HERE, 'evidence', 'replay')
  os.makedirs(d, exist_ok=True)
  rec = run.jsonable(rec)
  h = '%08x' % zlib.crc32(json.dumps(rec, sort_keys=True, default=str).encode())
  p = os.path.join('evidence', 'replay', '%s-%s.json' % (prop, h))
  with open(os.path.join(HERE, p), 'w') as f: json.dump(rec, f, indent=1)
  return p


def check(prop, tier, seed, verbose=False):
  t0 = time.time()
  mod, cs = run.load(prop)
  quick = tier == 'quick'
  total = getattr(mod, 'BUDGET', 240) if quick else 780
  e = run.Engine(prop, tier, seed, total * 0.6)
  smt.STATS.update({k: 0 for k in smt.STATS})
  nsamp = 4 if quick else 40
  bounded = []
  violations = []
  knowns = []
  crashed = []
  functions = collections.OrderedDict()
  order = [(c, v) for c in cs for v in c.variants]
  hidden = {'bad': [], 'unsup': set()}
  spent = 0.0
  for c, v in order:
    if violations and time.time() - t0 > total * 1.5: break
    if v.get('ones') and c.name not in e.dims and not c.opts.get('concrete_only'): continue   # no dimension occurs
    for tg in c.targets: functions.setdefault(tg, 0)
    n0, u0 = len(e.obls), len(e.unsupported)
    try:
      e.verify(c, v)
    except Exception as ex:  # engine limitation, never a verdict
      import traceback
      e.unsupported.append((c.name, v, 'engine: %s: %s' % (type(ex).__name__, str(ex)[:200])))
      if verbose: traceback.print_exc()
    new = e.obls[n0:]
    for tg in c.targets: functions[tg] += len(new)
    bad = [o for o in new if o.status != 'proved']
    unsup = e.unsupported[u0:]
    # the same contract on the real code
    hit = None
    k = c.samples or nsamp
    if unsup or bad: k = max(k, 30 if quick else 120)
    tmax = (25 if (unsup or bad) else 6) if quick else (60 if (unsup or bad) else 20)
    tmax = min(tmax, max(4, total - (time.time() - t0)))
    tm = time.time()
    for o in bad:
      if o.model and time.time() - tm < (15 if quick else 60):
        hit = e.concrete(c, v, 3, 10, model=o.model)
        if hit: break
    if not hit: hit = e.concrete(c, v, k, tmax)
    if not hit and c.opts.get('x32', False): hit = e.concrete(c, v, 2, tmax, x64=False)
    if hit and not bad and not unsup and not c.opts.get('concrete_only'):
      # every obligation is proved over the reals: a difference that disappears with a wider
      # tolerance is rounding
      hit['failures'] = (e.concrete_one(c, v, hit['seed'], hit['model'], hit['x64'], slack=50) or [None])[0]
      if not hit['failures']: hit = None
    if verbose:
      print('%s [%s]: %d obligations, %d not proved, %d unsupported%s' % (c.name, vkey(v), len(new), len(bad), len(unsup), ', FAILS ' + str(hit['failures'][:2]) if hit else ''))
      for o in bad: print('    ', o.name, o.path, o.status, o.backend, o.note, o.text[:300])
      for u in unsup: print('     unsupported', u[2])
    if hit:
      allk = True
      for nm, msg in hit['failures']:
        kf = known_match(prop, c.name, v, nm)
        if kf: knowns.append(kf)
        else: allk = False
      if not allk:
        rec = dict(property=prop, contract=c.name, variant=v, reproduced=True, targets=c.targets, run=hit,
                   failed_obligations=[dict(name=o.name, path=o.path, status=o.status, note=o.note, goal=o.text) for o in bad][:10],
                   how='./check.py %s --replay <this file>' % prop)
        violations.append((write_replay(prop, rec), True, c.name, hit['failures'][0]))
        break    # a failing input on the real code settles it
    real = [o for o in bad if o.status != 'exception' and not known_match(prop, c.name, v, o.name)]
    for o in bad:
      kf = known_match(prop, c.name, v, o.name)
      if kf: knowns.append(kf)
    exc = [o for o in bad if o.status == 'exception']
    if exc and not hit:
      # raised only under symbolic tracing: the real code runs, so this is a limit of the extraction
      for o in exc: e.unsupported.append((c.name, v, 'symbolic run: ' + o.note))
      unsup = unsup + exc
    if real and not hit:
      rec = dict(property=prop, contract=c.name, variant=v, reproduced=False, targets=c.targets,
                 failed_obligations=[dict(name=o.name, path=o.path, status=o.status, note=o.note, goal=o.text, model=run.jsonable(o.model)) for o in real][:10],
                 concrete_runs_without_failure=k)
      violations.append((write_replay(prop, rec), False, c.name, (real[0].name, real[0].status)))
    if unsup: bounded.append('%s [%s]: %d concrete runs' % (c.name, vkey(v), k))
  extra = []
  if hasattr(mod, 'extra'):
    for nm, ok, msg in mod.extra(e, tier, seed):
      e.obls.append(run.Obl(None, {}, '', nm, 'proved' if ok else 'failed', 'analysis', msg))
      if not ok:
        kf = known_match(prop, 'extra', {}, nm)
        if kf: knowns.append(kf); continue
        rec = dict(property=prop, contract='extra', obligation=nm, message=msg, reproduced=False)
        violations.append((write_replay(prop, rec), False, 'extra', (nm, msg)))
  # bounded checks of floating-point behaviour (never counted as proved)
  checks = []
  if hasattr(mod, 'bounded'):
    for nm, bound, ok, msg in mod.bounded(tier, seed):
      checks.append(dict(check=nm, bound=bound, held=bool(ok)))
      if not ok:
        kf = known_match(prop, 'bounded', {}, nm)
        if kf: knowns.append(kf); continue
        rec = dict(property=prop, contract='bounded', obligation=nm, message=msg, reproduced=True)
        violations.append((write_replay(prop, rec), True, 'bounded', (nm, msg)))
  vac = [x for x in e.vacuity if x[2] == 'unsat']
  n = len(e.obls); d = sum(o.status == 'proved' for o in e.obls)
  if n + e.concrete_obls == 0 or vac:
    print('ERROR: vacuous run', vac[:3]); rc = 2
  else: rc = 0
  backs = collections.Counter(o.backend for o in e.obls if o.status == 'proved')
  cov = dict(
      obligations=n, discharged=d, checker_cmd='./check.py %s --tier %s' % (prop, tier),
      trusted_base=TRUSTED,
      discharged_by=dict(backs), solver_seconds=round(smt.STATS['time'], 3), solver_queries=smt.STATS['queries'],
      functions_under_contract=[dict(function=k, obligations=x) for k, x in functions.items()],
      contracts=[dict(name=c.name, doc=c.doc, cases=len([v for v in c.variants if not v.get('ones') or c.name in e.dims])) for c in cs],
      paths=e.paths, infeasible_paths=e.infeasible,
      preconditions_satisfiable=dict(collections.Counter(s for _, _, s in e.vacuity)),
      bounded_stand_ins=bounded, bounded_float_checks=checks,
      outside_extraction=[dict(contract=a, case=vkey(b), reason=r) for a, b, r in e.unsupported][:40],
      evaluations=e.concrete_runs, concrete_rejected=e.concrete_rejects,
      samples=[dict(contract=o.contract.name if o.contract else 'extra', case=vkey(o.variant), obligation=o.name, backend=o.backend) for o in e.obls[:: max(1, n // 12)]][:14],
      rule='an obligation is one postcondition leaf on one path of one contract case; evaluations are concrete runs of the same contracts on the real code (cross-check of the extraction, seeded)')
  level = 'proof' if d else 'exploration'
  if level == 'exploration':
    cov.update(distinct_nontrivial=e.concrete_obls)
  ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=TRUSTED + list(getattr(mod, 'ASSUMPTIONS', [])),
            wall_s=round(time.time() - t0, 2), violations=len(violations))
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(run.jsonable(ev), f, indent=1)
  for kf in {json.dumps(k, sort_keys=True): k for k in knowns}.values():
    print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
  print('%s: %d obligations, %d discharged (%s), %d paths, %d concrete runs, %d bounded stand-ins, %.1fs' % (
      prop, n, d, ', '.join('%s %d' % x for x in backs.items()), e.paths, e.concrete_runs, len(bounded), time.time() - t0))
  if violations:
    violations.sort(key=lambda x: not x[1])
    for p, rep, cn, what in violations[:8]:
      print('  %s: %s: %s' % (cn, what[0], str(what[1])[:300]))
    p, rep, cn, what = violations[0]
    print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if rep else ' no-failing-input-found'))
    return 1
  return rc


def replay(prop, path):
  rec = json.load(open(path if os.path.isabs(path) else os.path.join(HERE, path)))
  mod, cs = run.load(prop)
  print(json.dumps({k: rec[k] for k in rec if k != 'run'}, indent=1)[:4000])
  if not rec.get('reproduced'): return 0
  for c in cs:
    if c.name != rec['contract']: continue
    for v in c.variants:
      if run.jsonable(v) == rec['variant']:
        e = run.Engine(prop)
        m = rec['run'].get('model')
        r = e.concrete_one(c, v, rec['run']['seed'], _model(m), rec['run']['x64'])
        print('replay:', 'FAILS ' + str(r[0]) if r else 'passes')
        return 1 if r else 0
  return 2


def _model(m):
  if not m: return None
  out = {}
  for k, v in m.items():
    if isinstance(v, dict):
      out[k] = {tuple(int(x) for x in i.strip('()').split(',') if x.strip()): y for i, y in v.items()}
    else: out[k] = v
  return out
