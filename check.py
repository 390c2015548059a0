"""Decides one property: python3-vt check.py P01 [--tier quick|thorough].

1. Parses the current source under $VERIF_REPO (default /repo), generates every
   proof obligation of the property's contracts and discharges them (z3, cvc5).
2. Runs the property's executable contract on the real code (CPython cross
   check of the engine; replay of refuted obligations; bounded stand-in for
   what the verifier could not decide).
3. Writes evidence/<id>.json; exit 0, or exit 1 with a VIOLATION line.
"""

import argparse
import ast
import copy
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')

import registry  # noqa: E402


def run_proof(task):
  area, prop, name, tier = task
  sys.setrecursionlimit(20000)
  out = {'name': name, 'obligations': [], 'problem': None, 'functions': {},
         'trusted': {}, 'dropped': [], 'covers': {}, 'wall': 0.0,
         'solver_time': 0.0, 'npaths': 0, 'queries': 0, 'text': {}}
  t0 = time.time()
  try:
    from pyvc import core
    mod = importlib.import_module('contracts.' + area)
    todo = [p for p in mod.proofs(prop) if p[0] == name]
    _, specf, harnessf = todo[0]
    sp = specf()
    eng = core.Engine(core.Program(os.path.join(REPO, 'py')),
                      timeout_ms=10000 if tier == 'quick' else 60000,
                      budget_s=getattr(mod, 'BUDGET_S', 300) * (1 if tier == 'quick' else 4))
    eng.repo = REPO
    r = eng.verify(name, harnessf(sp), sp)
    for o in r.obligations:
      d = {'name': o.name, 'status': o.status, 'time': round(o.time, 3),
           'backend': o.backend, 'where': o.where}
      if o.status != 'discharged':
        d['detail'] = o.detail
        d['path'] = str(o.path)
        if o.model is not None:
          d['model'] = str(o.model)[:6000]
      out['obligations'].append(d)
    out['problem'] = r.problem
    out['functions'] = eng.functions
    out['trusted'] = eng.trusted
    out['text'] = text_hashes(eng.program, eng.functions)
    out['dropped'] = r.dropped
    out['covers'] = r.covers
    out['solver_time'] = eng.solver_time
    out['npaths'] = r.npaths
    out['queries'] = eng.n_queries
    want = set(getattr(sp, 'must_cover', ()))
    if not r.problem and want - set(r.covers):
      out['problem'] = f'vacuous: never reached {sorted(want - set(r.covers))}'
    if not r.problem and not r.covers:
      out['problem'] = 'vacuous: no path reached the end of the harness'
  except Exception:  # engine error: undecided, never a violation
    out['problem'] = 'engine error: ' + traceback.format_exc(limit=-4)
  out['wall'] = time.time() - t0
  return out


def text_hashes(prog, functions):
  """Hash of the code (without comments and docstrings) of every function the
  proof ran through, and of the module level of their modules."""
  out = {}

  def strip(node):
    node = copy.deepcopy(node)
    for n in ast.walk(node):
      b = getattr(n, 'body', None)
      if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(
          b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        n.body = b[1:] or [ast.Pass()]
    return node

  def h(node):
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]

  for name, m in prog.modules.items():
    if m is None or not any(f.startswith(name + '.') for f in functions):
      continue
    tree = strip(m.tree)

    def walk(body, prefix):
      rest = []
      for n in body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
          q = prefix + n.name
          if q in functions:
            out[q] = out.get(q, '') + h(n)
        elif isinstance(n, ast.ClassDef):
          n.body = walk(n.body, prefix + n.name + '.') or [ast.Pass()]
          rest.append(n)
        elif not isinstance(n, (ast.Import, ast.ImportFrom)):
          rest.append(n)
      return rest

    tree.body = walk(tree.body, name + '.')
    out[name + '.<module>'] = h(tree)
  return out


def _child(task, conn):
  try:
    conn.send(run_proof(task))
  finally:
    conn.close()


def run_proofs(tasks, deadline_s):
  """One process per proof; a crash of the solver or a missed deadline leaves
  the proof undecided."""
  ctx = multiprocessing.get_context('fork')
  limit = max(2, (os.cpu_count() or 4) - 1)
  todo, running, done = list(enumerate(tasks)), {}, {}
  t0 = time.time()
  while todo or running:
    while todo and len(running) < limit:
      n, task = todo.pop(0)
      r, w = ctx.Pipe(duplex=False)
      p = ctx.Process(target=_child, args=(task, w))
      p.start()
      w.close()
      running[r] = (n, task, p)
    left = max(0.0, deadline_s - (time.time() - t0))
    ready = multiprocessing.connection.wait(list(running), timeout=min(left, 5.0))
    if not ready and left <= 0:
      for r, (n, task, p) in running.items():
        p.kill()
        done[n] = failed_proof(task, 'not finished in time')
        p.join()
      for n, task in todo:
        done[n] = failed_proof(task, 'not started in time')
      break
    for r in ready:
      n, task, p = running.pop(r)
      try:
        done[n] = r.recv()
      except (EOFError, OSError):
        p.join()
        done[n] = failed_proof(task, f'the solver process ended (exit code {p.exitcode})')
      p.join()
  return [done[n] for n in range(len(tasks))]


def failed_proof(task, why):
  return {'name': task[2], 'obligations': [], 'problem': why, 'functions': {},
          'trusted': {}, 'dropped': [], 'covers': {}, 'wall': 0.0,
          'solver_time': 0.0, 'npaths': 0, 'queries': 0, 'text': {}}


def run_replay(driver, prop, tier, seed, budget, hints, repo=None):
  env = dict(os.environ)
  env['VERIF_REPO'] = repo or REPO
  env['PYTHONDONTWRITEBYTECODE'] = '1'
  env['PYTHONHASHSEED'] = '0'
  env.pop('PYTHONPATH', None)
  cmd = [PY, os.path.join(HERE, 'replay', 'main.py'), driver, prop,
         '--tier', tier, '--seed', str(seed), '--budget', str(budget)]
  t0 = time.time()
  try:
    p = subprocess.run(cmd, capture_output=True, text=True, env=env,
                       timeout=budget + 90, input=json.dumps(hints))
  except subprocess.TimeoutExpired as e:
    return {'status': 'error', 'error': f'replay driver timed out: {e}',
            'wall': time.time() - t0}
  for line in reversed(p.stdout.splitlines()):
    if line.startswith('REPLAY-RESULT '):
      r = json.loads(line[len('REPLAY-RESULT '):])
      r['wall'] = time.time() - t0
      return r
  return {'status': 'error', 'wall': time.time() - t0,
          'error': f'exit {p.returncode}\n{p.stdout[-1500:]}\n{p.stderr[-3000:]}'}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--no-replay', action='store_true')
  ap.add_argument('--verbose', action='store_true')
  ap.add_argument('--write-baseline', action='store_true')
  args = ap.parse_args()
  prop, tier = args.prop, args.tier
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  area, driver = registry.AREAS[prop]
  mod = importlib.import_module('contracts.' + area)
  names = [p[0] for p in mod.proofs(prop)]
  tasks = [(area, prop, n, tier) for n in names]
  results = []
  if tasks:
    results = run_proofs(tasks, 520 if tier == 'quick' else 3600)

  bpath = os.path.join(HERE, 'baseline.json')
  baseline = json.load(open(bpath)) if os.path.exists(bpath) else {}
  if args.write_baseline:
    b = baseline.setdefault(prop, {})
    for r in results:
      b[r['name']] = {'dropped': r['dropped'], 'text': r['text'],
                      'obligations': sorted({o['name'] for o in r['obligations']})}
    json.dump(baseline, open(bpath, 'w'), indent=1, sort_keys=True)
    baseline = json.load(open(bpath))

  refuted, undecided, lossy = [], [], []
  failed = []  # named obligations of changed code that were not discharged
  obligations = discharged = 0
  backends = {}
  functions, trusted = {}, {}
  solver_time = 0.0
  for r in results:
    obligations += len(r['obligations'])
    functions.update(r['functions'])
    for k, v in r['trusted'].items():
      trusted[k] = trusted.get(k, 0) + v
    solver_time += r['solver_time']
    base = set(baseline.get(prop, {}).get(r['name'], {}).get('dropped', []))
    extra = [d for d in r['dropped'] if d not in base]
    if extra:
      lossy.append(f"{r['name']}: loop invariants not inductive for this text: {extra}")
    for o in r['obligations']:
      if o['status'] == 'discharged':
        discharged += 1
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
      elif o['status'] == 'refuted' and not extra:
        refuted.append((r['name'], o))
      else:
        undecided.append(f"{r['name']}: {o['name']} ({o['status']}, {o['where']})")
        if r['text'] != baseline.get(prop, {}).get(r['name'], {}).get('text'):
          failed.append((r['name'], o))
    if r['problem']:
      undecided.append(f"{r['name']}: {r['problem']}")
    if not r['obligations'] and not r['problem']:
      undecided.append(f"{r['name']}: zero obligations generated")

  need = bool(refuted or undecided)
  budget = (40 if not need else 150) if tier == 'quick' else 900
  hints = [{'proof': n, 'obligation': o['name'], 'model': o.get('model', '')}
           for n, o in refuted][:20]
  if args.no_replay:
    rep = {'status': 'skipped'}
  else:
    rep = run_replay(driver, prop, tier, seed, budget, hints)

  violations = 0
  line = None
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  rpath = os.path.join(HERE, 'evidence', f'replay_{prop}.json')
  if os.path.exists(rpath):
    os.remove(rpath)
  known = load_known(prop)
  known_lines = []
  failures = rep.get('failures', [])
  fresh = []
  for f in failures:
    k = next((k for k in known if k['key'] == f.get('key')), None)
    if k:
      known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    else:
      fresh.append(f)
  code = 0
  if fresh:
    violations = len(fresh)
    json.dump({'property': prop, 'kind': 'concrete input replayed on the real code',
               'failed_obligations': [dict(o, proof=n) for n, o in refuted][:10],
               'undecided': undecided[:10], 'failures': fresh[:5],
               'rerun': f'{PY} {HERE}/replay/main.py {driver} {prop} --seed {seed}'},
              open(rpath, 'w'), indent=1)
    line = f'VIOLATION property={prop} replay={rpath}'
    code = 1
  elif (refuted or failed) and rep.get('status') != 'skipped':
    violations = len(refuted or failed)
    json.dump({'property': prop,
               'kind': ('obligation refuted by the solver; no failing input found' if refuted else
                        'obligation of the changed code not accepted by the solver;'
                        ' no failing input found'),
               'failed_obligations': [dict(o, proof=n) for n, o in refuted + failed][:10],
               'search': {k: v for k, v in rep.items() if k != 'failures'}},
              open(rpath, 'w'), indent=1)
    line = f'VIOLATION property={prop} replay={rpath} no-failing-input-found'
    code = 1
  elif undecided and rep.get('status') != 'ok':
    code = 2

  proved = not refuted and not undecided and discharged > 0
  level = getattr(mod, 'LEVEL', {}).get(prop, 'proof')
  cov = {
      'obligations': obligations,
      'discharged': discharged,
      'checker_cmd': f'python3-vt /verif/check.py {prop} --tier {tier}',
      'trusted_base': sorted(set(getattr(mod, 'TRUSTED', {}).get(prop, [])) | {
          f'rule of the verifier for {k} (used {v}x)' for k, v in trusted.items()}),
      'backends': backends,
      'solver_time_s': round(solver_time, 2),
      'functions_under_contract': functions,
      'proofs': [{'name': r['name'], 'paths': r['npaths'],
                  'obligations': len(r['obligations']),
                  'discharged': sum(o['status'] == 'discharged' for o in r['obligations']),
                  'invariant_candidates_dropped': r['dropped'],
                  'covers': r['covers'], 'wall_s': round(r['wall'], 2)}
                 for r in results],
      'all_obligations_discharged': proved,
      'undecided': undecided + lossy,
      'refuted': [f'{n}: {o["name"]}' for n, o in refuted],
      'not_accepted_for_changed_code': [f'{n}: {o["name"]}' for n, o in failed],
      'bounded': getattr(mod, 'BOUNDED', {}).get(prop, 'none: no part of this property rests on a bounded check'),
      'cross_check_on_real_code': {k: v for k, v in rep.items() if k != 'failures'},
  }
  ev = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': level,
      'coverage': cov,
      'assumptions': getattr(mod, 'ASSUMPTIONS', {}).get(prop, []),
      'wall_s': round(time.time() - t0, 2), 'violations': violations,
  }
  json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)

  print(f'{prop}: {discharged}/{obligations} obligations discharged, '
        f'{len(refuted)} refuted, {len(undecided)} undecided; '
        f'cross-check {rep.get("status")} ({rep.get("evaluations", 0)} evaluations); '
        f'{time.time() - t0:.1f}s')
  for n, o in refuted[:20]:
    print(f'  REFUTED {n}: {o["name"]} at {o["where"]}')
  for n, o in failed[:20]:
    print(f'  FAILED {n}: {o["name"]} at {o["where"]}')
  for u in (undecided + lossy)[:20]:
    print(f'  UNDECIDED {u[:600]}')
  if rep.get('status') == 'error':
    print('  CROSS-CHECK ERROR ' + str(rep.get('error'))[:3000])
  for f in fresh[:3]:
    print('  FAILURE ' + json.dumps(f)[:800])
  if args.verbose:
    for r in results:
      print('  ', r['name'], r['npaths'], 'paths', len(r['obligations']), 'obl',
            round(r['wall'], 1), 's', 'dropped', r['dropped'], r['covers'])
  for k in known_lines:
    print(k)
  if line:
    print(line)
  sys.exit(code)


def load_known(prop):
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p):
    return []
  return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


if __name__ == '__main__':
  main()
