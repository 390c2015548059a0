"""setup_cmd: checks that the verifier works here (accepts a true contract, refutes
a false one) and that the real code's interpreter starts."""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
from pyvc import core
from pyvc.spec import Spec
from pyvc.interp import Interp

SRC = '''
def good(xs, n):
  t = 0
  for x in xs:
    if x > n:
      t = t + 1
  return t

def bad(a):
  return a if a > 0 else a + 1
'''


class S(Spec):
  def loop_invariants(self, it, L):
    t = L.frame.locals.get('t')
    return [('t >= 0', it.int_t(t) >= 0)] if t is not None else []


def main():
  with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'm.py'), 'w').write(SRC)
    def harness(fn):
      def h(it):
        m = it.prog.module('m')
        a = core.SInt(z3.Int('a'))
        if fn == 'bad':
          r = it.call(it.modname(m, 'bad'), [a], {})
          it.oblige('positive', it.int_t(r) > 0)
        it.cover('end')
      return h
    e = core.Engine(core.Program(d), timeout_ms=5000)
    sp = S()
    r = e.verify('bad', harness('bad'), sp)
    st = {o.status for o in r.obligations}
    assert r.problem is None and st == {'discharged', 'refuted'}, (r.problem, st)
  subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy'], check=True)
  print('selftest ok: z3', z3.get_version_string())


main()
