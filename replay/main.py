"""Entry point of the executable contracts (runs the real code in CPython)."""

import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Ctx:
  """Collects evaluations and failures; enforces the time budget."""

  def __init__(self, prop, tier, seed, budget, hints):
    self.prop = prop
    self.tier = tier
    self.rng = random.Random(seed)
    self.deadline = time.time() + budget
    self.evaluations = 0
    self.nontrivial = 0
    self.samples = []
    self.failures = []
    self.keys = set()
    self.hints = hints
    self.notes = []
    self.thorough = tier == 'thorough'

  def left(self):
    return self.deadline - time.time()

  def ev(self, sample=None, nontrivial=True):
    self.evaluations += 1
    self.nontrivial += bool(nontrivial)
    if sample is not None and len(self.samples) < 3:
      self.samples.append(str(sample)[:400])

  def fail(self, key, what, **details):
    if key in self.keys:
      return
    self.keys.add(key)
    self.failures.append({'key': key, 'what': what,
                          **{k: repr(v)[:1500] if not isinstance(v, (str, int, list)) else v
                             for k, v in details.items()}})

  def enough(self):
    return len(self.failures) >= 3 or self.left() <= 0


def blame(exc):
  """Why an exception that escaped the driver is the real code's doing, or None.

  The drivers run to the end on the unchanged tree, so an escaped exception is
  a difference in behaviour.  Exceptions that a missing feature of the stand-ins
  or a moved private name would cause (AttributeError, TypeError, imports) stay
  errors of the driver, unless they are about a None where a value belongs.
  """
  import common
  frames = traceback.extract_tb(exc.__traceback__)
  real = [f for f in frames if f.filename.startswith(os.path.join(common.REPO, 'py') + os.sep)]
  if not real or isinstance(exc, (ImportError, SyntaxError, MemoryError, RecursionError,
                                  KeyboardInterrupt, SystemExit)):
    return None
  where = f'{os.path.relpath(real[-1].filename, common.REPO)}:{real[-1].lineno} in {real[-1].name}'
  if isinstance(exc, (AttributeError, TypeError, NameError, NotImplementedError)):
    if not isinstance(exc, UnboundLocalError) and not (
        isinstance(exc, (AttributeError, TypeError)) and 'NoneType' in str(exc)):
      return None
  if frames[-1] is real[-1] or isinstance(exc, OSError) or type(exc).__name__ == 'Refused':
    return where
  return None


STUCK_S = 15  # seconds of CPU time within one evaluation; they take below 1 s


def watch(c, finish):
  """Ends a run that is stuck inside the real code: that is a violation too."""
  import common
  st = {'ev': -1, 'cpu': 0.0, 'gap': 0.0}

  def tick(signum, frame):
    now = time.process_time()
    st['gap'] = max(st['gap'], now - st['cpu'] if st['ev'] == c.evaluations else 0)
    if st['ev'] != c.evaluations:
      st['ev'], st['cpu'] = c.evaluations, now
    elif now - st['cpu'] > STUCK_S:
      f = frame
      while f is not None:
        n = f.f_code.co_filename
        if n.startswith(os.path.join(common.REPO, 'py') + os.sep):
          c.fail('stuck', 'the real code does not return', after_cpu_seconds=STUCK_S,
                 where=f'{os.path.relpath(n, common.REPO)}:{f.f_lineno} in {f.f_code.co_name}',
                 trace=''.join(traceback.format_stack(frame))[-2500:])
          break
        f = f.f_back
      else:
        c.notes.append('time budget reached')
      finish('ok', None)

  signal.signal(signal.SIGVTALRM, tick)
  signal.setitimer(signal.ITIMER_VIRTUAL, 1, 1)
  return st


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('driver')
  ap.add_argument('prop')
  ap.add_argument('--tier', default='quick')
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--budget', type=float, default=40)
  a = ap.parse_args()
  try:
    hints = json.loads(sys.stdin.read() or '[]') if not sys.stdin.isatty() else []
  except ValueError:
    hints = []
  c = Ctx(a.prop, a.tier, a.seed, a.budget, hints)
  signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError()))
  signal.alarm(int(a.budget) + 45)
  status, error = 'ok', None

  def finish(status, error):
    signal.alarm(0)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if os.environ.get('VERIF_GAP'):
      print('longest evaluation', st['gap'])
    try:
      import common
      common.cleanup()
    except Exception:
      pass
    if c.failures:
      status = 'failed'
    r = {'status': status, 'evaluations': c.evaluations,
         'distinct_nontrivial': c.nontrivial, 'samples': c.samples,
         'failures': c.failures, 'notes': c.notes}
    if error:
      r['error'] = error
    sys.stdout.write('\nREPLAY-RESULT ' + json.dumps(r) + '\n')
    sys.stdout.flush()
    os._exit(0)

  st = watch(c, finish)
  try:
    import common
    common.setup()
    importlib.import_module('drv_' + a.driver).run(c)
  except TimeoutError:
    c.notes.append('time budget reached')
  except BaseException as e:  # pylint: disable=broad-except
    status, error = 'error', traceback.format_exc()
    where = blame(e)
    if where:
      c.fail(f'raises:{type(e).__name__}',
             'the real code raises where the contract says it returns',
             error=f'{type(e).__name__}: {e}'[:600], where=where,
             trace=error[-2500:])
  finish(status, error)


if __name__ == '__main__':
  main()
