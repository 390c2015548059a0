"""pyvc: a contract verifier for the Python text that is in /repo right now.

The verifier parses the real source files on every run, executes the AST of the
function under contract symbolically (all inputs, all paths; loops through
inductive invariants, never by unrolling a symbolic loop), and discharges every
proof obligation with an SMT solver (z3, then a fresh z3, then cvc5).

Nothing is translated by hand: what is executed is `ast.parse` of the file.
What the extraction drops: type annotations, docstrings, and the text of error
messages (f-strings with symbolic parts become unknown strings).
"""

import ast
import os
import re
import subprocess
import tempfile
import time

import z3

# ----------------------------------------------------------------- universe --

_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('real', ('r', z3.RealSort()))
_V.declare('str', ('s', z3.StringSort()))
_V.declare('ref', ('id', z3.IntSort()))
_V.declare('tup', ('items', z3.SeqSort(z3.DatatypeSort('Val'))))
_V.declare('lst', ('litems', z3.SeqSort(z3.DatatypeSort('Val'))))
Val = _V.create()
SeqVal = z3.SeqSort(Val)
NONE = Val.none
from pyvc import seqs
seqs.init(SeqVal, Val)
from pyvc.seqs import Length

# Uninterpreted facts about opaque references.
Truthy = z3.Function('py_truthy', z3.IntSort(), z3.BoolSort())
IsA = z3.Function('py_isinstance', z3.IntSort(), z3.IntSort(), z3.BoolSort())
PyEq = z3.Function('py_eq', Val, Val, z3.BoolSort())

# Reference id ranges: [1, 10^6) named constants of the outside world,
# [10^6, 2*10^6) pre-existing symbolic objects (only by assumption),
# >= 2*10^6 objects allocated by the code under verification.
_CONST_BASE = 1
_FRESH_BASE = 2_000_000


_multi_pattern = z3.MultiPattern


def _safe_multi_pattern(*args):
  # z3py drops its references to the arguments before it uses them; hold them.
  r = _multi_pattern(*args)
  return r if args else None


z3.MultiPattern = _safe_multi_pattern

DEBUG_QID = bool(os.environ.get('PYVC_QID'))


def FA(vs, body, patterns=()):
  """ForAll with trigger hints (hints are dropped where z3 rejects them)."""
  if patterns:
    try:
      if DEBUG_QID:
        q = re.sub(r'\s+', '', str(patterns))[:90]
        return z3.ForAll(vs, body, patterns=list(patterns), qid=q)
      return z3.ForAll(vs, body, patterns=list(patterns))
    except z3.Z3Exception:
      pass
  return z3.ForAll(vs, body)


class Unsupported(Exception):
  """The text uses a construct the verifier has no rule for."""


class PathEnd(Exception):
  pass


class Restart(Exception):
  pass


class ReturnSig(Exception):

  def __init__(self, value):
    self.value = value


class BreakSig(Exception):
  pass


class ContinueSig(Exception):
  pass


class PyRaise(Exception):
  """A Python exception raised by the program under verification."""

  def __init__(self, exc):
    self.exc = exc

  @property
  def cls(self):
    return self.exc.cls


# ------------------------------------------------------------------- values --


class Sym:
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return f'{type(self).__name__}({self.t})'


class SInt(Sym):
  pass


class SBool(Sym):
  pass


class SReal(Sym):
  pass


class SStr(Sym):
  pass


class SVal(Sym):
  pass


class STup(Sym):
  """A tuple of unknown length (t : Seq Val)."""


class Poison:
  """A local whose value after a loop iteration is not tracked."""

  def __repr__(self):
    return '<poison>'


class Undef:
  pass


UNDEF = Undef()


class Obj:
  """A heap object of a class, identified by a concrete reference id."""

  def __init__(self, cls, ref, birth):
    self.cls = cls
    self.fields = {}
    self.ref = ref
    self.birth = birth
    self.immutable = False
    self.fvals = None  # ghost

  def __repr__(self):
    n = self.cls.__name__ if isinstance(self.cls, type) else getattr(
        self.cls, 'name', self.cls)
    return f'<{n}#{self.ref}>'


class ListObj:

  def __init__(self, items, ref, birth, seq=None):
    self.items = items  # concrete list of values, or None when symbolic
    self.seq = seq  # z3 Seq Val when symbolic
    self.ref = ref
    self.birth = birth
    self.wrap = None

  def __repr__(self):
    return f'<list {self.items if self.items is not None else self.seq}>'


class DictObj:
  """Insertion-ordered dict.

  Concrete: `items` is a list of [key, value].  Symbolic: dom/val/ord arrays
  over Val keys (modulo ==), a stamp counter and a cardinality.  `measures` are
  ghost sums over the entries: name -> (weight(val_term)->Int, total term).
  """

  def __init__(self, ref, birth, items=None):
    self.items = items
    self.ref = ref
    self.birth = birth
    self.dom = self.val = self.ord = self.nxt = self.card = None
    self.measures = {}
    self.wrap = None  # Val term -> value
    self.version = 0
    self.owns_lists = False

  def snapshot(self):
    s = DictObj(self.ref, self.birth)
    s.items = None if self.items is None else [list(x) for x in self.items]
    s.dom, s.val, s.ord, s.nxt, s.card = (
        self.dom, self.val, self.ord, self.nxt, self.card)
    s.measures = dict(self.measures)
    s.wrap = self.wrap
    s.owns_lists = self.owns_lists
    return s

  def __repr__(self):
    return f'<dict#{self.ref}>'


class SetObj:

  def __init__(self, ref, birth, items=None):
    self.items = items
    self.ref = ref
    self.birth = birth
    self.dom = None
    self.card = None

  def __repr__(self):
    return f'<set#{self.ref}>'


class SetDict:
  """collections.defaultdict(set): key -> set, as nested arrays."""

  def __init__(self, ref, birth):
    self.ref = ref
    self.birth = birth
    self.dom = z3.K(Val, z3.BoolVal(False))
    self.mem = z3.K(Val, z3.K(Val, z3.BoolVal(False)))


class OwnedSet:
  """The set stored in SetDict `d` under `key`."""

  def __init__(self, d, key):
    self.d = d
    self.key = key


class OwnedList:
  """The list stored in dict `d` under `key` (uniquely owned by the dict)."""

  def __init__(self, d, key, version):
    self.d = d
    self.key = key
    self.version = version


class IterObj:

  def __init__(self, seqfn, pos, birth, ref):
    self.src = seqfn  # sequence value (tuple / ListObj / STup)
    self.fields = {'pos': pos}
    self.birth = birth
    self.ref = ref


class FuncVal:

  def __init__(self, node, module, closure, cls=None, qualname=''):
    self.node = node
    self.module = module
    self.closure = closure
    self.cls = cls
    self.qualname = qualname
    self.defaults = None
    self.kwdefaults = None
    self.is_gen = None
    self.cm = False

  def __repr__(self):
    return f'<func {self.qualname}>'


class Bound:

  def __init__(self, fn, self_):
    self.fn = fn
    self.self_ = self_


class Builtin:

  def __init__(self, name, fn):
    self.name = name
    self.fn = fn

  def __repr__(self):
    return f'<builtin {self.name}>'


class PartialVal:

  def __init__(self, fn, args, kwargs):
    self.fn = fn
    self.args = args
    self.kwargs = kwargs


class ClassVal:

  def __init__(self, name, node, module, closure):
    self.name = name
    self.node = node
    self.module = module
    self.closure = closure
    self.bases = []
    self.attrs = {}
    self.fields = None  # dataclass fields: list of (name, default or UNDEF, factory)
    self.dc = None  # dataclass options
    self.slots = None
    self.birth = 0

  def __repr__(self):
    return f'<class {self.name}>'


class PropVal:

  def __init__(self, fget):
    self.fget = fget


class StaticVal:

  def __init__(self, fn):
    self.fn = fn


class ClassMethodVal:

  def __init__(self, fn):
    self.fn = fn


class SuperVal:

  def __init__(self, cls, self_):
    self.cls = cls
    self.self_ = self_


class ExtRef:
  """A named thing of the outside world (module, class, function, constant)."""

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return f'<ext {self.name}>'

  def __eq__(self, o):
    return isinstance(o, ExtRef) and o.name == self.name

  def __hash__(self):
    return hash(self.name)


class GenVal:
  """A generator object of a repo function, not started."""

  def __init__(self, fn, frame):
    self.fn = fn
    self.frame = frame


class GenExp:

  def __init__(self, node, frame):
    self.node = node
    self.frame = frame


class EnumPairs:
  """zip()/enumerate()/items() over symbolic sequences: columns."""

  def __init__(self, length, at):
    self.length = length  # z3 Int
    self.at = at  # z3 Int -> value
    self.on_end = None  # what happens when the iteration is exhausted


class KeySeq:
  """The keys of a finite dict/set, enumerated: at : Int -> Val, idx its inverse."""

  def __init__(self, n, at, idx):
    self.n = n
    self.at = at
    self.idx = idx


class Frame:
  _n = 0

  def __init__(self, module, closure=None, fn=None, cls=None):
    self.locals = {}
    self.module = module
    self.closure = closure
    self.fn = fn
    self.cls = cls
    self.nonlocals = set()
    self.globals_ = set()
    self.birth = 0
    self.yield_cb = None

  def find(self, name):
    f = self
    while f is not None:
      if name in f.locals:
        return f
      f = f.closure
    return None


class Module:

  def __init__(self, name, path, src):
    self.name = name
    self.path = path
    self.src = src
    self.tree = ast.parse(src, path)
    self.index = {}
    for st in self.tree.body:
      self._index(st)

  def _index(self, st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      self.index[st.name] = st
    elif isinstance(st, ast.Assign):
      for t in st.targets:
        if isinstance(t, ast.Name):
          self.index[t.id] = st
        elif isinstance(t, ast.Tuple):
          for e in t.elts:
            if isinstance(e, ast.Name):
              self.index[e.id] = st
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
      if st.value is not None:
        self.index[st.target.id] = st
    elif isinstance(st, ast.Import):
      for a in st.names:
        self.index[a.asname or a.name.split('.')[0]] = st
    elif isinstance(st, ast.ImportFrom):
      for a in st.names:
        self.index[a.asname or a.name] = st
    elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
      for sub in ast.walk(st):
        if isinstance(sub, (ast.FunctionDef, ast.ClassDef)):
          self.index.setdefault(sub.name, st)
        elif isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
          self.index.setdefault(sub.id, st)
        elif isinstance(sub, (ast.Import, ast.ImportFrom)):
          for a in sub.names:
            self.index.setdefault(a.asname or a.name.split('.')[0], st)
    elif hasattr(ast, 'TypeAlias') and isinstance(st, ast.TypeAlias):
      self.index[st.name.id] = st


class Program:
  """The source text under verification."""

  def __init__(self, root):
    self.root = root
    self.modules = {}

  def module(self, dotted):
    if dotted in self.modules:
      return self.modules[dotted]
    p = os.path.join(self.root, *dotted.split('.')) + '.py'
    if not os.path.exists(p):
      p2 = os.path.join(self.root, *dotted.split('.'), '__init__.py')
      if not os.path.exists(p2):
        self.modules[dotted] = None
        return None
      p = p2
    with open(p, encoding='utf-8') as f:
      src = f.read()
    m = Module(dotted, p, src)
    self.modules[dotted] = m
    return m


# ------------------------------------------------------------------- engine --


_QCACHE = {}


def _has_quant(e):
  i = e.get_id()
  if i in _QCACHE and _QCACHE[i][0].eq(e):
    return _QCACHE[i][1]
  seen = set()
  stack = [e]
  r = False
  while stack:
    x = stack.pop()
    if z3.is_quantifier(x):
      r = True
      break
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    stack.extend(x.children())
  _QCACHE[i] = (e, r)
  return r


class Obligation:
  __slots__ = ('name', 'status', 'time', 'backend', 'model', 'path', 'where',
               'detail')

  def __init__(self, name, status, t, backend, model=None, path=None,
               where='', detail=''):
    self.name = name
    self.status = status
    self.time = t
    self.backend = backend
    self.model = model
    self.path = path
    self.where = where
    self.detail = detail


class LoopMem:

  def __init__(self):
    self.writes = {}  # cellkey -> kind
    self.dropped = set()
    self.seen = set()


class Engine:
  """Explores all paths of one harness and collects obligations."""

  def __init__(self, program, timeout_ms=8000, max_paths=4000, budget_s=240):
    self.program = program
    self.timeout_ms = timeout_ms
    self.max_paths = max_paths
    self.budget_s = budget_s
    self.loopmem = {}
    self.solver_time = 0.0
    self.n_queries = 0
    self.functions = {}  # qualname -> (file, lineno) executed from source
    self.trusted = {}  # model name -> count
    self.unsound_notes = set()

  def verify(self, name, harness, spec):
    """Runs `harness(interp)` on every path; returns a Result."""
    seqs.ABS[0] = bool(getattr(spec, 'pure_comps', False))
    t0 = time.time()
    self.loopmem = {}
    self.memo = {}
    restarts = 0
    while True:
      obligations = []
      covers = {}
      npaths = 0
      work = [[]]
      try:
        while work:
          prefix = work.pop()
          npaths += 1
          if npaths > self.max_paths:
            raise Unsupported('path explosion')
          if time.time() - t0 > self.budget_s:
            raise Unsupported('time budget exhausted')
          it = self.make_interp(prefix, spec)
          try:
            harness(it)
            for c in it.cover_marks:
              covers[c] = covers.get(c, 0) + 1
          except PathEnd:
            for c in it.cover_marks:
              covers[c] = covers.get(c, 0) + 1
          except PyRaise as e:
            raise Unsupported(
                f'uncaught program exception {e.exc!r} escaped the harness')
          except RecursionError:
            raise Unsupported('recursion')
          obligations.extend(it.obligations)
          work.extend(it.pending)
        break
      except Restart:
        restarts += 1
        if restarts > 200:
          return Result(name, obligations, npaths, 'too many restarts',
                        time.time() - t0, covers, self.loopmem)
        continue
      except Unsupported as e:
        return Result(name, obligations, npaths, f'unsupported: {e}',
                      time.time() - t0, covers, self.loopmem)
    return Result(name, obligations, npaths, None, time.time() - t0, covers,
                  self.loopmem)

  def make_interp(self, prefix, spec):
    from pyvc import interp
    return interp.Interp(self, prefix, spec)

  # -- solver access --

  def check(self, assertions, extra, timeout_ms=None, ematch_only=False):
    """Returns ('unsat'|'sat'|'unknown', model, backend)."""
    self.n_queries += 1
    t0 = time.time()
    tmo = timeout_ms or self.timeout_ms
    try:
      quant = any(_has_quant(a) for a in assertions) or any(
          _has_quant(a) for a in extra)
      if quant:
        # E-matching only: fast at proving, gives up quickly otherwise.
        s = z3.SimpleSolver()
        s.set('timeout', tmo)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        if seqs.ABS[0]:
          s.set('smt.string_solver', 'none')
        s.add(*assertions)
        s.add(*extra)
        if seqs.ABS[0] and not ematch_only and tmo > 2500:
          # Fresh processes often settle what a warm solver does not, and
          # libz3 may crash when it is cancelled.
          return self.check_z3_process(s, tmo), None, 'z3'
        if s.check() == z3.unsat:
          return 'unsat', None, 'z3'
        if ematch_only:
          if seqs.ABS[0] and s.reason_unknown() not in ('timeout', 'canceled'):
            # Gave up at once: a fresh process may still see it.
            return self.check_z3_process(s, 1000), None, 'z3'
          return 'unknown', None, 'z3'
      s = z3.Solver()
      s.set('timeout', tmo)
      if seqs.ABS[0]:
        return 'unknown', None, 'z3'
      s.add(*assertions)
      s.add(*extra)
      r = s.check()
      if r == z3.unsat:
        return 'unsat', None, 'z3'
      if r == z3.sat:
        if seqs.ABS[0]:
          return 'unknown', None, 'z3-abstract'
        return 'sat', s.model(), 'z3'
      return 'unknown', None, 'z3'
    except z3.Z3Exception as e:
      return 'unknown', None, f'z3-error {e}'
    finally:
      self.solver_time += time.time() - t0

  def check_z3_process(self, s, tmo):
    """Two z3 releases side by side; 'unsat' as soon as one of them says so."""
    try:
      txt = s.to_smt2()
    except z3.Z3Exception:
      return 'unknown'
    opts = ['-smt2', 'auto_config=false', 'smt.mbqi=false', f'-t:{tmo}', f'-T:{tmo // 1000 + 2}']
    ps = []
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
      f.write(txt)
      f.flush()
      try:
        for cmd in (['z3-new', 'smt.string_solver=none'], ['z3']):
          try:
            ps.append(subprocess.Popen(cmd[:1] + opts + cmd[1:] + [f.name], stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, text=True))
          except OSError:
            pass
        left, end = list(ps), time.time() + tmo / 1000 + 5
        while left and time.time() < end:
          for p in list(left):
            if p.poll() is not None:
              left.remove(p)
              out = p.stdout.read()
              if 'error' not in out and out.split()[-1:] == ['unsat']:
                return 'unsat'
          time.sleep(0.01)
        return 'unknown'
      finally:
        for p in ps:
          if p.poll() is None:
            p.kill()
          p.stdout.close()
          p.wait()

  def check_cvc5(self, assertions, extra, timeout_s=8):
    t0 = time.time()
    if seqs.ABS[0]:
      return 'unknown'
    try:
      s = z3.Solver()
      for a in assertions:
        s.add(a)
      for a in extra:
        s.add(a)
      txt = '(set-logic ALL)\n' + s.to_smt2()
      p = subprocess.run(
          ['cvc5', '--lang', 'smt2', '--strings-exp', '--dt-nested-rec', f'--tlimit={int(timeout_s*1000)}', '-'],
          input=txt, capture_output=True, text=True, timeout=timeout_s + 5)
      out = p.stdout.strip().splitlines()
      return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
    except (OSError, subprocess.SubprocessError, z3.Z3Exception):
      return 'unknown'
    finally:
      self.solver_time += time.time() - t0


class Result:

  def __init__(self, name, obligations, npaths, problem, wall, covers,
               loopmem=None):
    self.name = name
    self.obligations = obligations
    self.npaths = npaths
    self.problem = problem
    self.wall = wall
    self.covers = covers
    self.dropped = sorted(
        {d for m in (loopmem or {}).values() for d in m.dropped})

  @property
  def discharged(self):
    return sum(o.status == 'discharged' for o in self.obligations)

  @property
  def refuted(self):
    return [o for o in self.obligations if o.status == 'refuted']

  @property
  def undecided(self):
    return [o for o in self.obligations if o.status == 'undecided']
