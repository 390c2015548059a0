"""Symbolic interpreter for the Python AST (one path per instance)."""

import ast
import fractions
import time

import z3

from pyvc.core import *  # pylint: disable=wildcard-import
from pyvc import core

_CONCRETE = (bool, int, float, str, bytes, type(None), type(Ellipsis))


def is_z3(x):
  return isinstance(x, z3.ExprRef)


class LoopCtx:
  """What a loop invariant may talk about."""

  def __init__(self):
    self.node = None
    self.frame = None
    self.i = None  # z3 Int: completed iterations (for-loops)
    self.length = None
    self.seqval = None
    self.at = None
    self.acc = None
    self.data = {}
    self.kind = ''
    self.key = None
    self.phase = ''


class Interp:

  def __init__(self, eng, prefix, spec):
    self.eng = eng
    self.prog = eng.program
    self.spec = spec
    self.prefix = prefix
    self.pos = 0
    self.trail = []
    self.pending = []
    self.pc = []
    self.obligations = []
    self.cover_marks = []
    self.nfresh = 0
    self.nref = core._FRESH_BASE
    self.clock = 0
    self.objs = {}
    self.modglobals = {}
    self.modframes = {}
    self.writelogs = []
    self.callstack = []
    self.options = []
    self.loop_count = {}
    self.ghost = {}
    self.depth = 0
    self.inc = z3.Solver()
    self.inc.set('timeout', 500)
    self.inc.set('auto_config', False)
    self.inc.set('smt.mbqi', False)
    if seqs.ABS[0]:
      self.inc.set('smt.string_solver', 'none')
    self.cur_exc = []
    self.quiet = 0
    self.pure = False
    self.where = ''
    self.sig = 0
    self.axids = {}
    self._qk = [-1, 0, ()]
    if seqs.ABS[0]:
      for f in seqs.axioms():
        self.assume_q(f)

  # ------------------------------------------------------------ logic core --

  def replaying(self):
    return self.pos < len(self.prefix)

  def assume(self, f):
    if f is True:
      return
    if f is False:
      raise PathEnd()
    if z3.is_true(f):
      return
    self.pc.append(f)
    self.inc.add(f)
    if z3.is_false(f):
      raise PathEnd()

  def assume_q(self, f):
    """assume without ending the path on a contradiction."""
    f = z3.BoolVal(f) if isinstance(f, bool) else f
    self.pc.append(f)
    self.inc.add(f)

  def axiom(self, f):
    """A fact that holds everywhere (never guarded by a local condition)."""
    self.axids[f.get_id()] = f
    self.assume_q(f)

  def is_axiom(self, f):
    g = self.axids.get(f.get_id())
    return g is not None and g.eq(f)

  def btm(self, v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(v)

  def fresh(self, name, sort):
    self.nfresh += 1
    return z3.Const(f'{name}!{self.nfresh}', sort)

  def _memo_key(self, what, f):
    """Execution is deterministic given the trail and the loop memory, so a
    query made at the same point after a restart has the same answer."""
    n = len(self.trail)
    if self._qk[0] != n:
      self._qk = [n, 0, tuple(self.trail)]
    self._qk[1] += 1
    return (what, self._qk[2], self.sig, self._qk[1], len(self.pc), f.hash())

  def _sat(self, f):
    key = self._memo_key('sat', f)
    r = self.eng.memo.get(key)
    if r is None:
      r = self.eng.memo[key] = self._sat_(f)
    return r

  def query(self, f, timeout_ms=None, ematch_only=False):
    key = self._memo_key((timeout_ms, ematch_only), f)
    r = self.eng.memo.get(key)
    if r is None:
      if getattr(self.spec, 'cvc5_first', False):
        c = self.eng.check_cvc5(self.pc, [f], 10)
        if c == 'unsat':
          r = ('unsat', None, 'cvc5')
        else:
          r = self.eng.check(self.pc, [f], min(timeout_ms or 4000, 4000), ematch_only)
      else:
        r = self.eng.check(self.pc, [f], timeout_ms, ematch_only)
      self.eng.memo[key] = r
    return r

  def _sat_(self, f):
    t0 = time.time()
    self.eng.n_queries += 1
    self.inc.push()
    try:
      self.inc.add(f)
      r = self.inc.check()
    except z3.Z3Exception:
      r = z3.unknown
    self.inc.pop()
    self.eng.solver_time += time.time() - t0
    if r == z3.unknown and getattr(self.spec, 'cvc5_first', False):
      if self.eng.check_cvc5(self.pc, [f], 3) == 'unsat':
        r = z3.unsat
    return r

  def feasible(self):
    return self._sat(z3.BoolVal(True)) != z3.unsat

  def branch(self, cond):
    """Decides a condition, forking the path if both outcomes are possible."""
    if isinstance(cond, bool):
      return cond
    if isinstance(cond, SBool):
      cond = cond.t
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.pure:
      from pyvc import pure
      rt = self._sat(cond)
      rf = self._sat(z3.Not(cond))
      if rt == z3.unsat and rf == z3.unsat:
        raise pure.NotPure('empty source')
      if rt != z3.unsat and rf != z3.unsat:
        raise pure.NotPure('forks')
      d = rf == z3.unsat
      self.assume_q(cond if d else z3.Not(cond))
      return d
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      self.trail.append(d)
    else:
      rt = self._sat(cond)
      rf = self._sat(z3.Not(cond))
      if rt == z3.unsat and rf == z3.unsat:
        raise PathEnd()
      if rt == z3.unsat:
        d = False
      elif rf == z3.unsat:
        d = True
      else:
        self.pending.append(self.trail + [False])
        d = True
      self.trail.append(d)
      self.pos += 1
      self.prefix = self.prefix + [d]
    f = cond if d else z3.Not(cond)
    self.pc.append(f)
    self.inc.add(f)
    return d

  def choose(self, name):
    """A free boolean choice (both outcomes are explored)."""
    return self.branch(self.fresh('choice_' + name, z3.BoolSort()))

  def option(self, name):
    """A choice of the harness; what is learned about a loop is kept apart."""
    r = self.choose(name)
    self.options.append((name, r))
    return r

  def entails(self, f, timeout_ms=None, ematch_only=False):
    if isinstance(f, bool):
      return 'unsat' if f else 'sat'
    st, _, _ = self.query(z3.Not(f), timeout_ms or 3000, ematch_only)
    return st

  def oblige(self, name, f, detail=''):
    """A proof obligation on the current path."""
    if self.replaying():
      if not isinstance(f, bool):
        self.assume(f)
      return
    if isinstance(f, SBool):
      f = f.t
    t0 = time.time()
    if isinstance(f, bool):
      if f:
        self.obligations.append(
            Obligation(name, 'discharged', 0.0, 'syntactic', where=self.where))
      else:
        # Refuted unless the path is infeasible.
        st, model, be = self.eng.check(self.pc, [])
        if st == 'unsat':
          raise PathEnd()
        self.obligations.append(
            Obligation(name, 'refuted' if st == 'sat' else 'undecided',
                       time.time() - t0, be, model, list(self.trail),
                       self.where, detail))
      return
    st, model, be = self.query(z3.Not(f))
    if st == 'unknown' and not getattr(self.spec, 'cvc5_first', False):
      key = self._memo_key('cvc5', f)
      r = self.eng.memo.get(key)
      if r is None:
        r = self.eng.memo[key] = self.eng.check_cvc5(self.pc, [z3.Not(f)])
      if r == 'unsat':
        st, be = 'unsat', 'cvc5'
      elif r == 'sat':
        st, be = 'unknown', 'cvc5-sat'
    status = {'unsat': 'discharged', 'sat': 'refuted',
              'unknown': 'undecided'}[st]
    self.obligations.append(
        Obligation(name, status, time.time() - t0, be, model,
                   list(self.trail) if status != 'discharged' else None,
                   self.where, detail))
    self.assume(f)

  def lemma(self, name, f):
    """A side condition of the proof's structure: if it cannot be shown the
    proof is undecided (the property itself is not thereby refuted)."""
    n = len(self.obligations)
    self.oblige(name, f)
    for o in self.obligations[n:]:
      if o.status == 'refuted':
        o.status = 'undecided'
        o.name += ' [proof structure]'

  def cover(self, name):
    """Vacuity guard: this point must be reachable on some path."""
    if self.replaying():
      self.cover_marks.append(name)
      return
    st, _, _ = self.eng.check(self.pc, [], 3000, True)
    if st == 'unsat':
      raise PathEnd()
    self.cover_marks.append(name)

  # ------------------------------------------------------------- allocation --

  def tick(self):
    self.clock += 1
    return self.clock

  def newref(self):
    self.nref += 1
    return self.nref

  def new_obj(self, cls):
    o = Obj(cls, self.newref(), self.tick())
    self.objs[o.ref] = o
    return o

  def new_list(self, items):
    o = ListObj(list(items), self.newref(), self.tick())
    self.objs[o.ref] = o
    return o

  def new_list_sym(self, seq):
    o = ListObj(None, self.newref(), self.tick(), seq)
    self.objs[o.ref] = o
    return o

  def new_dict(self, items=()):
    o = DictObj(self.newref(), self.tick(), [list(x) for x in items])
    self.objs[o.ref] = o
    return o

  def new_dict_sym(self, name, wf=True):
    o = DictObj(self.newref(), self.tick())
    self.objs[o.ref] = o
    self.havoc_dict(o, name)
    return o

  def new_set(self, items=()):
    o = SetObj(self.newref(), self.tick(), list(items))
    self.objs[o.ref] = o
    return o

  def havoc_dict(self, o, name='d'):
    o.items = None
    o.version += 1
    o.dom = self.fresh(name + '_dom', z3.ArraySort(Val, z3.BoolSort()))
    o.val = self.fresh(name + '_val', z3.ArraySort(Val, Val))
    o.ord = self.fresh(name + '_ord', z3.ArraySort(Val, z3.IntSort()))
    o.nxt = self.fresh(name + '_nxt', z3.IntSort())
    o.card = self.fresh(name + '_card', z3.IntSort())
    o.measures = {
        m: (w, self.fresh(f'{name}_{m}', z3.IntSort()))
        for m, (w, _) in o.measures.items()
    }
    self.assume(self.dict_wf(o))

  def dict_wf(self, o):
    """True of every finite insertion-ordered dict."""
    k, j = z3.Consts('k j', Val)
    return z3.And(
        o.card >= 0,
        z3.Implies(o.card == 0, FA([k], z3.Not(o.dom[k]), patterns=[o.dom[k]])),
        z3.Or(o.card == 0, o.dom[self.fresh('wit', Val)]),
        FA([k], z3.Implies(o.dom[k], o.ord[k] < o.nxt),
                  patterns=[o.ord[k]]),
        FA([k, j], z3.Implies(
            z3.And(o.dom[k], o.dom[j], o.ord[k] == o.ord[j]), k == j),
                  patterns=[z3.MultiPattern(o.ord[k], o.ord[j])]),
    )

  def dict_facts(self, o):
    """Facts of finite maps that SMT cannot derive (cardinality, sums)."""
    if o.items is not None:
      return
    k = z3.Const('k', Val)
    wit = self.fresh('wit', Val)
    self.assume(o.card >= 0)
    self.assume(z3.Or(o.card == 0, o.dom[wit]))
    self.assume(z3.Implies(o.card == 0, FA([k], z3.Not(o.dom[k]), patterns=[o.dom[k]])))
    for w, total in o.measures.values():
      # Sum of an empty map is 0; with non-negative weights each weight is at
      # most the sum.
      self.assume(z3.Implies(o.card == 0, total == 0))
      neg = self.fresh('neg', Val)
      self.assume(z3.Or(z3.And(o.dom[neg], w(o.val[neg]) < 0), z3.And(
          total >= 0,
          FA([k], z3.Implies(o.dom[k], w(o.val[k]) <= total), patterns=[o.dom[k]]))))

  # ---------------------------------------------------------------- reify --

  def const_id(self, name):
    tab = self.eng.__dict__.setdefault('const_ids', {})
    if name not in tab:
      tab[name] = core._CONST_BASE + len(tab)
    return tab[name]

  def class_tag(self, cls):
    if isinstance(cls, type):
      return self.const_id('type:' + cls.__name__)
    if isinstance(cls, ClassVal):
      return self.const_id('class:' + cls.module.name + '.' + cls.name)
    if isinstance(cls, ExtRef):
      return self.const_id('ext:' + cls.name)
    raise Unsupported(f'class tag of {cls!r}')

  def tv(self, v):
    """Value -> Val term."""
    if v is None:
      return NONE
    if isinstance(v, bool):
      return Val.bool(z3.BoolVal(v))
    if isinstance(v, int):
      return Val.int(z3.IntVal(v))
    if isinstance(v, float):
      if v != v or v in (float('inf'), float('-inf')):
        return Val.ref(z3.IntVal(self.const_id('float:' + repr(v))))
      return Val.real(z3.RealVal(fractions.Fraction(v)))
    if isinstance(v, str):
      return Val.str(z3.StringVal(v))
    if isinstance(v, bytes):
      return Val.ref(z3.IntVal(self.const_id('bytes:' + repr(v))))
    if v is Ellipsis:
      return Val.ref(z3.IntVal(self.const_id('Ellipsis')))
    if isinstance(v, SInt):
      return Val.int(v.t)
    if isinstance(v, SBool):
      return Val.bool(v.t)
    if isinstance(v, SReal):
      return Val.real(v.t)
    if isinstance(v, SStr):
      return Val.str(v.t)
    if isinstance(v, SVal):
      return v.t
    if isinstance(v, STup):
      return Val.tup(v.t)
    if isinstance(v, tuple):
      return Val.tup(self.seq_of(v))
    if isinstance(v, (Obj, ListObj, DictObj, SetObj, IterObj, SetDict)):
      return Val.ref(z3.IntVal(v.ref))
    if isinstance(v, (ExtRef, ClassVal, type)):
      return Val.ref(z3.IntVal(self.class_tag(v)))
    if isinstance(v, FuncVal):
      i = self.const_id(f'func:{v.module.name}.{v.qualname}:{v.closure.birth if v.closure else 0}')
      self.objs[i] = v
      return Val.ref(z3.IntVal(i))
    if isinstance(v, (Bound, Builtin, PartialVal, GenVal, GenExp)):
      if not hasattr(v, 'ref'):
        v.ref = self.newref()
        self.objs[v.ref] = v
      return Val.ref(z3.IntVal(v.ref))
    raise Unsupported(f'cannot store {v!r} symbolically')

  def seq_of(self, items):
    items = list(items)
    return seqs.seq_of_terms([self.tv(x) for x in items])

  def fv(self, t):
    """Val term -> value (concrete where the term is)."""
    t = z3.simplify(t)
    if z3.is_app(t):
      d = t.decl()
      n = d.name()
      if t.sort() == Val and d.kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        if n == 'none':
          return None
        a = t.arg(0)
        if n == 'bool':
          return z3.is_true(a) if z3.is_true(a) or z3.is_false(a) else SBool(a)
        if n == 'int':
          return a.as_long() if z3.is_int_value(a) else SInt(a)
        if n == 'real':
          return SReal(a)
        if n == 'str':
          return a.as_string() if z3.is_string_value(a) and '\\' not in a.as_string() else SStr(a)
        if n == 'ref':
          if z3.is_int_value(a) and a.as_long() in self.objs:
            return self.objs[a.as_long()]
          return SVal(t)
        if n == 'tup':
          return self._tup_from_seq(a)
    return SVal(t)

  def _tup_from_seq(self, s):
    if seqs.ABS[0]:
      ts = seqs.terms_of(s)
      return STup(s) if ts is None else tuple(self.fv(t) for t in ts)
    s = z3.simplify(s)
    out = []

    def rec(x):
      if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return all(rec(x.arg(i)) for i in range(x.num_args()))
      if x.decl().kind() == z3.Z3_OP_SEQ_UNIT:
        out.append(self.fv(x.arg(0)))
        return True
      if x.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return True
      return False

    if rec(s):
      return tuple(out)
    return STup(s)

  def unopaque(self, v):
    """Narrow an SVal by its constructor (forks only if undetermined)."""
    if not isinstance(v, SVal):
      return v
    t = v.t
    if self.branch(Val.is_ref(t)):
      return SVal(t)
    if self.branch(Val.is_none(t)):
      return None
    if self.branch(Val.is_int(t)):
      return SInt(Val.i(t))
    if self.branch(Val.is_bool(t)):
      return SBool(Val.b(t))
    if self.branch(Val.is_str(t)):
      return SStr(Val.s(t))
    if self.branch(Val.is_real(t)):
      return SReal(Val.r(t))
    if self.branch(Val.is_tup(t)):
      return STup(Val.items(t))
    raise Unsupported('list-valued opaque')

  # -------------------------------------------------------------- raising --

  def throw(self, cls, *args):
    o = self.new_obj(cls)
    o.fields['args'] = tuple(args)
    raise PyRaise(o)

  def exc_matches(self, exc, cls):
    if isinstance(cls, tuple):
      return any(self.exc_matches(exc, c) for c in cls)
    return self.is_subclass(exc.cls, cls)

  def mro(self, cls):
    if isinstance(cls, type):
      return list(cls.__mro__)
    out = [cls]
    for b in getattr(cls, 'bases', []):
      for c in self.mro(b):
        if c not in out:
          out.append(c)
    return out

  def is_subclass(self, c, d):
    if isinstance(c, type) and isinstance(d, type):
      return issubclass(c, d)
    return any(x is d or (isinstance(x, ExtRef) and x == d)
               for x in self.mro(c)) or d is object

  # ------------------------------------------------------------ name lookup --

  def lookup(self, frame, name):
    if name not in frame.globals_:
      f = frame.find(name)
      if f is not None:
        v = f.locals[name]
        if isinstance(v, Poison):
          raise Unsupported(f'use of loop-carried local {name} not tracked')
        return v
    return self.modname(frame.module, name)

  def modname(self, module, name):
    key = (module.name, name)
    if key in self.modglobals:
      return self.modglobals[key]
    ov = self.spec.override(self, module, name)
    if ov is not UNDEF:
      self.modglobals[key] = ov
      return ov
    if name in module.index:
      v = self.eval_toplevel(module, name, module.index[name])
      self.modglobals[key] = v
      return v
    from pyvc import builtins_model
    b = builtins_model.lookup(self, name)
    if b is UNDEF:
      raise Unsupported(f'unknown name {name} in {module.name}')
    return b

  def modframe(self, module):
    if module.name not in self.modframes:
      self.modframes[module.name] = Frame(module)
    return self.modframes[module.name]

  def eval_toplevel(self, module, name, st):
    fr = self.modframe(module)
    if isinstance(st, ast.FunctionDef):
      return self.make_func(st, fr, None, st.name, closure=None)
    if isinstance(st, ast.ClassDef):
      return self.make_class(st, fr, closure=None)
    if isinstance(st, ast.Import):
      for a in st.names:
        if (a.asname or a.name.split('.')[0]) == name:
          return self.import_module(a.name if a.asname else a.name.split('.')[0])
    if isinstance(st, ast.ImportFrom):
      for a in st.names:
        if (a.asname or a.name) == name:
          return self.import_from(st.module, a.name)
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
      hook = getattr(self.spec, 'toplevel_assign', None)
      v = self.ev(st.value, fr)
      targets = st.targets if isinstance(st, ast.Assign) else [st.target]
      for t in targets:
        if isinstance(t, ast.Name) and t.id == name:
          return v
        if isinstance(t, ast.Tuple) and isinstance(v, tuple):
          for e, x in zip(t.elts, v):
            if isinstance(e, ast.Name) and e.id == name:
              return x
    if hasattr(ast, 'TypeAlias') and isinstance(st, ast.TypeAlias):
      return ExtRef(f'{module.name}.{name}')
    raise Unsupported(f'module-level binding of {module.name}.{name}')

  def import_module(self, dotted):
    m = self.prog.module(dotted)
    if m is not None and not self.spec.is_external(dotted):
      return m
    return ExtRef(dotted)

  def import_from(self, mod, name):
    if mod is None:
      raise Unsupported('relative import')
    full = f'{mod}.{name}'
    if not self.spec.is_external(full):
      m = self.prog.module(full)
      if m is not None:
        return m
      m = self.prog.module(mod)
      if m is not None and name in m.index and not self.spec.is_external(mod):
        return self.modname(m, name)
    return self.ext(full)

  def ext(self, dotted):
    m = self.spec.model(self, dotted)
    if m is not UNDEF:
      return m
    from pyvc import builtins_model
    return builtins_model.external(self, dotted)

  # ------------------------------------------------------ functions/classes --

  def make_func(self, node, frame, cls, qualname, closure):
    f = FuncVal(node, frame.module, closure, cls, qualname)
    a = node.args
    f.defaults = [self.ev(d, frame) for d in a.defaults]
    f.kwdefaults = [None if d is None else (self.ev(d, frame),)
                    for d in a.kw_defaults]
    v = f
    if not isinstance(node, ast.Lambda):
      for dec in reversed(node.decorator_list):
        v = self.apply_decorator(dec, v, frame, node)
    return v

  def apply_decorator(self, dec, v, frame, node):
    name = self.dotted(dec if not isinstance(dec, ast.Call) else dec.func)
    hook = self.spec.decorator(self, name, dec, v, frame)
    if hook is not UNDEF:
      return hook
    if name == 'property' or name == 'functools.cached_property':
      return PropVal(v)
    if name == 'classmethod':
      return ClassMethodVal(v)
    if name == 'staticmethod':
      return StaticVal(v)
    if name == 'contextlib.contextmanager':
      v.cm = True
      return v
    if name in ('abc.abstractmethod', 'override', 'typing.override',
                'typing_extensions.override', 'typing.overload', 'overload',
                'functools.wraps', 'typing.final'):
      return v
    if isinstance(node, ast.FunctionDef) and not isinstance(dec, ast.Call):
      d = self.ev(dec, frame)
      return self.call(d, [v], {})
    d = self.ev(dec, frame)
    return self.call(d, [v], {})

  def dotted(self, node):
    if isinstance(node, ast.Name):
      return node.id
    if isinstance(node, ast.Attribute):
      b = self.dotted(node.value)
      return f'{b}.{node.attr}' if b else ''
    return ''

  def make_class(self, node, frame, closure):
    c = ClassVal(node.name, node, frame.module, closure)
    c.birth = self.tick()
    for b in node.bases:
      if isinstance(b, ast.Subscript):
        b = b.value
      c.bases.append(self.ev(b, frame))
    for dec in node.decorator_list:
      nm = self.dotted(dec.func if isinstance(dec, ast.Call) else dec)
      if nm in ('dataclasses.dataclass', 'dataclass'):
        c.dc = {}
        if isinstance(dec, ast.Call):
          for kw in dec.keywords:
            c.dc[kw.arg] = self.ev(kw.value, frame)
      elif nm in ('typing.final', 'final', 'typing.runtime_checkable',
                  'functools.total_ordering'):
        pass
      else:
        raise Unsupported(f'class decorator {nm}')
    cf = Frame(frame.module, closure)
    c.fields = []
    for st in node.body:
      if isinstance(st, ast.FunctionDef):
        v = self.make_func(st, frame, c, f'{node.name}.{st.name}', closure)
        c.attrs[st.name] = v
        cf.locals[st.name] = v
      elif isinstance(st, ast.AnnAssign):
        d = UNDEF
        if st.value is not None:
          d = self._class_default(st.value, frame, cf)
          c.attrs[st.target.id] = d
          cf.locals[st.target.id] = d
        c.fields.append((st.target.id, d))
      elif isinstance(st, ast.Assign):
        fr2 = Frame(frame.module, closure)
        fr2.locals = dict(cf.locals)
        v = self.ev(st.value, fr2)
        for t in st.targets:
          if not isinstance(t, ast.Name):
            raise Unsupported('class-level target')
          c.attrs[t.id] = v
          cf.locals[t.id] = v
      elif isinstance(st, ast.Expr) or isinstance(st, ast.Pass):
        pass
      elif isinstance(st, ast.ClassDef):
        v = self.make_class(st, frame, closure)
        c.attrs[st.name] = v
        cf.locals[st.name] = v
      else:
        raise Unsupported(f'class body statement {type(st).__name__}')
    self.spec.class_hook(self, c)
    return c

  def _class_default(self, node, frame, cf):
    if isinstance(node, ast.Call) and self.dotted(node.func) in (
        'dataclasses.field', 'field'):
      for kw in node.keywords:
        if kw.arg == 'default':
          return self.ev(kw.value, frame)
        if kw.arg == 'default_factory':
          return ('<factory>', self.ev(kw.value, frame))
      return UNDEF
    fr2 = Frame(frame.module, frame.closure)
    fr2.locals = dict(cf.locals)
    return self.ev(node, fr2)

  def class_attr(self, cls, name):
    for c in self.mro(cls):
      if isinstance(c, ClassVal):
        if name in c.attrs:
          return c.attrs[name], c
      elif isinstance(c, ExtRef):
        m = self.spec.ext_class_attr(self, c, name)
        if m is not UNDEF:
          return m, c
    return UNDEF, None

  def dc_fields(self, cls):
    out = []
    for c in reversed(self.mro(cls)):
      if isinstance(c, ClassVal) and c.dc is not None:
        for n, d in c.fields:
          out = [x for x in out if x[0] != n] + [(n, d)]
    return out

  def instantiate(self, cls, args, kwargs):
    ov = self.spec.instantiate(self, cls, args, kwargs)
    if ov is not UNDEF:
      return ov
    if self.is_subclass(cls, BaseException):
      pass
    o = self.new_obj(cls)
    o.fields_init = True
    init, where = self.class_attr(cls, '__init__')
    if init is not UNDEF and isinstance(where, ClassVal):
      self.call(Bound(init, o) if isinstance(init, FuncVal) else init,
                list(args), dict(kwargs))
      return o
    dc = any(isinstance(c, ClassVal) and c.dc is not None
             for c in self.mro(cls))
    if dc:
      kw_only = any(isinstance(c, ClassVal) and c.dc and c.dc.get('kw_only')
                    for c in self.mro(cls))
      fields = self.dc_fields(cls)
      args = list(args)
      kwargs = dict(kwargs)
      if args and kw_only:
        self.throw(TypeError, 'positional arguments to kw_only dataclass')
      if len(args) > len(fields):
        self.throw(TypeError, 'too many positional arguments')
      for n, d in fields:
        if args:
          v = args.pop(0)
          if n in kwargs:
            self.throw(TypeError, 'multiple values')
        elif n in kwargs:
          v = kwargs.pop(n)
        elif d is UNDEF:
          self.throw(TypeError, f'missing {n}')
        elif isinstance(d, tuple) and len(d) == 2 and d[0] == '<factory>':
          v = self.call(d[1], [], {})
        else:
          v = d
        o.fields[n] = v
      if kwargs:
        self.throw(TypeError, f'unexpected keyword {list(kwargs)}')
      frozen = any(isinstance(c, ClassVal) and c.dc and c.dc.get('frozen')
                   for c in self.mro(cls))
      o.immutable = bool(frozen)
      post, _ = self.class_attr(cls, '__post_init__')
      if post is not UNDEF:
        self.call(Bound(post, o), [], {})
      if o.immutable:
        self.spec.frozen_hook(self, o)
      return o
    if self.is_subclass(cls, BaseException):
      o.fields['args'] = tuple(args)
      return o
    if args or kwargs:
      for c in self.mro(cls):
        if isinstance(c, ExtRef):
          raise Unsupported(f'constructor of external base {c.name}')
      self.throw(TypeError, 'object takes no arguments')
    return o

  # --------------------------------------------------------------- calling --

  def call(self, fn, args, kwargs, node=None):
    self.depth += 1
    if self.depth > 80:
      self.depth = 0
      raise Unsupported('call depth (recursion without a contract)')
    try:
      return self._call(fn, args, kwargs, node)
    finally:
      self.depth -= 1

  def _call(self, fn, args, kwargs, node):
    if isinstance(fn, Bound):
      return self._call(fn.fn, [fn.self_] + list(args), kwargs, node)
    if isinstance(fn, FuncVal):
      h = self.spec.contract(self, fn)
      if h is not None and (fn.qualname, fn.module.name) not in self.spec.bodies_under_proof:
        self.eng.trusted  # modular call: contract, not body
        return h(self, fn, args, kwargs)
      return self.run_function(fn, args, kwargs)
    if isinstance(fn, Builtin):
      self.eng.trusted[fn.name] = self.eng.trusted.get(fn.name, 0) + 1
      return fn.fn(self, list(args), dict(kwargs))
    if isinstance(fn, ClassVal):
      return self.instantiate(fn, args, kwargs)
    if isinstance(fn, type):
      from pyvc import builtins_model
      return builtins_model.call_type(self, fn, list(args), dict(kwargs))
    if isinstance(fn, PartialVal):
      kw = dict(fn.kwargs)
      kw.update(kwargs)
      return self.call(fn.fn, list(fn.args) + list(args), kw)
    if isinstance(fn, (StaticVal,)):
      return self.call(fn.fn, args, kwargs)
    if isinstance(fn, Obj):
      m, _ = self.class_attr(fn.cls, '__call__')
      if m is not UNDEF:
        return self.call(Bound(m, fn), args, kwargs)
    if isinstance(fn, SVal):
      r = self.spec.call_opaque(self, fn, args, kwargs)
      if r is not UNDEF:
        return r
    if isinstance(fn, ExtRef):
      r = self.spec.call_ext(self, fn, args, kwargs)
      if r is not UNDEF:
        return r
      raise Unsupported(f'call of external {fn.name}')
    raise Unsupported(f'call of {fn!r}')

  def bind(self, fn, args, kwargs):
    a = fn.node.args
    out = {}
    args = list(args)
    kwargs = dict(kwargs)
    pos = [p.arg for p in a.posonlyargs] + [p.arg for p in a.args]
    posonly = {p.arg for p in a.posonlyargs}
    ndef = len(fn.defaults)
    for i, p in enumerate(pos):
      if args:
        out[p] = args.pop(0)
        if p in kwargs and p not in posonly:
          self.throw(TypeError, f'multiple values for {p}')
      elif p in kwargs and p not in posonly:
        out[p] = kwargs.pop(p)
      elif i >= len(pos) - ndef:
        out[p] = fn.defaults[i - (len(pos) - ndef)]
      else:
        self.throw(TypeError, f'missing argument {p}')
    if any(isinstance(x, _StarSeq) for x in out.values()):
      raise Unsupported('*args of unknown length for named parameters')
    if a.vararg:
      if any(isinstance(x, _StarSeq) for x in args):
        out[a.vararg.arg] = STup(seqs.cat(*[x.seq if isinstance(x, _StarSeq) else seqs.seq_of_terms([self.tv(x)])
                                            for x in args]))
      else:
        out[a.vararg.arg] = tuple(args)
    elif args:
      self.throw(TypeError, 'too many positional arguments')
    for p, d in zip(a.kwonlyargs, fn.kwdefaults):
      if p.arg in kwargs:
        out[p.arg] = kwargs.pop(p.arg)
      elif d is not None:
        out[p.arg] = d[0]
      else:
        self.throw(TypeError, f'missing keyword argument {p.arg}')
    if a.kwarg:
      out[a.kwarg.arg] = self.new_dict([[k, v] for k, v in kwargs.items()])
    elif kwargs:
      self.throw(TypeError, f'unexpected keyword {list(kwargs)}')
    return out

  def run_function(self, fn, args, kwargs):
    bound = self.bind(fn, args, kwargs)
    fr = Frame(fn.module, fn.closure, fn, fn.cls)
    fr.birth = self.tick()
    fr.locals.update(bound)
    if isinstance(fn.node, ast.Lambda):
      self.note_function(fn)
      return self.ev(fn.node.body, fr)
    if fn.is_gen is None:
      fn.is_gen = _is_generator(fn.node)
    if fn.is_gen:
      return GenVal(fn, fr)
    return self.run_body(fn, fr)

  def note_function(self, fn):
    self.eng.functions[f'{fn.module.name}.{fn.qualname}'] = (
        f'{fn.module.path}:{fn.node.lineno}')

  def run_body(self, fn, fr):
    self.note_function(fn)
    self.callstack.append(fn.qualname)
    saved = self.cur_exc
    self.cur_exc = []
    try:
      self.exec_block(fn.node.body, fr)
      return None
    except ReturnSig as r:
      return r.value
    finally:
      self.callstack.pop()
      self.cur_exc = saved

  # ------------------------------------------------------------- attributes --

  def getattr(self, v, name, default=UNDEF):
    from pyvc import builtins_model
    if isinstance(v, Module):
      try:
        return self.modname(v, name)
      except Unsupported:
        if name not in v.index:
          sub = self.prog.module(v.name + '.' + name)
          if sub is not None:
            return sub
        raise
    if isinstance(v, ExtRef):
      return self.ext(v.name + '.' + name)
    if isinstance(v, SlotDesc):
      if name == '__set__':
        return Builtin('slot.__set__', lambda it, a, k: it.raw_setattr(a[0], v.name, a[1]))
      if name == '__get__':
        return Builtin('slot.__get__', lambda it, a, k: it.getattr(a[0], v.name))
    if isinstance(v, InstDict) and name == 'update':
      def update(it, a, k):
        kv = list(k.items())
        for d in a:
          if not isinstance(d, DictObj) or d.items is None or not all(isinstance(n, str) for n, _ in d.items):
            raise Unsupported('update of an instance dict')
          kv = list(d.items) + kv
        for n, x in kv:
          it.raw_setattr(v.obj, n, x)
      return Builtin('__dict__.update', update)
    if v is object and name == '__setattr__':
      return Builtin('object.__setattr__', lambda it, a, k: it.raw_setattr(*a))
    if isinstance(v, SuperVal):
      mro = self.mro(v.self_.cls)
      idx = mro.index(v.cls)
      for c in mro[idx + 1:]:
        if isinstance(c, ClassVal) and name in c.attrs:
          a = c.attrs[name]
          if isinstance(a, PropVal):
            return self.call(a.fget, [v.self_], {})
          return Bound(a, v.self_)
        if isinstance(c, ExtRef):
          m = self.spec.ext_class_attr(self, c, name)
          if m is not UNDEF:
            return Bound(m, v.self_)
      if name == '__init__':
        return Builtin('object.__init__', lambda it, a, k: None)
      if name == '__setattr__':
        return Builtin('object.__setattr__', lambda it, a, k: it.raw_setattr(v.self_, *a))
      raise Unsupported(f'super().{name}')
    if isinstance(v, Obj):
      if name == '__class__':
        return v.cls
      if name == '__dict__':
        return InstDict(v)
      a, _ = self.class_attr(v.cls, name)
      if isinstance(a, PropVal):
        return self.call(a.fget, [v], {})
      if isinstance(a, Obj) and self.class_attr(a.cls, '__get__')[0] is not UNDEF and (
          self.class_attr(a.cls, '__set__')[0] is not UNDEF or name not in v.fields):
        return self.call(Bound(self.class_attr(a.cls, '__get__')[0], a), [v, v.cls], {})
      if name in v.fields:
        self.spec.on_read(self, v, name)
        r = v.fields[name]
        if isinstance(r, Poison):
          raise Unsupported(f'field {name} not tracked across loop')
        return r
      if a is UNDEF:
        r = self.spec.obj_attr(self, v, name)
        if r is not UNDEF:
          return r
        ga, _ = self.class_attr(v.cls, '__getattr__')
        if ga is not UNDEF:
          return self.call(Bound(ga, v), [name], {})
        if default is not UNDEF:
          return default
        for c in self.mro(v.cls):
          if isinstance(c, ExtRef):
            raise Unsupported(f'attribute {name} of external base {c.name}')
        self.throw(AttributeError, name)
      if isinstance(a, (FuncVal, Builtin)):
        return Bound(a, v)
      if isinstance(a, StaticVal):
        return a.fn
      if isinstance(a, ClassMethodVal):
        return Bound(a.fn, v.cls)
      return a
    if isinstance(v, ClassVal):
      if name == '__name__':
        return v.name
      if name == '__dict__':
        return ClassDict(v)
      a, _ = self.class_attr(v, name)
      if a is UNDEF:
        r = self.spec.class_attr_hook(self, v, name)
        if r is not UNDEF:
          return r
        if default is not UNDEF:
          return default
        self.throw(AttributeError, name)
      if isinstance(a, StaticVal):
        return a.fn
      if isinstance(a, ClassMethodVal):
        return Bound(a.fn, v)
      return a
    if isinstance(v, SVal):
      r = self.spec.opaque_attr(self, v, name, default)
      if r is not UNDEF:
        return r
      v2 = self.unopaque(v)
      if not isinstance(v2, SVal):
        return self.getattr(v2, name, default)
      raise Unsupported(f'attribute {name} of opaque value')
    if v is None:
      if default is not UNDEF:
        return default
      self.throw(AttributeError, name)
    m = builtins_model.method(self, v, name)
    if m is not UNDEF:
      return m
    if default is not UNDEF:
      return default
    raise Unsupported(f'attribute {name} of {v!r}')

  def setattr(self, v, name, val):
    if isinstance(v, Obj):
      a, _ = self.class_attr(v.cls, name)
      if isinstance(a, Obj):
        st, _ = self.class_attr(a.cls, '__set__')
        if st is not UNDEF:
          return self.call(Bound(st, a), [v, val], {})
      sa, _ = self.class_attr(v.cls, '__setattr__')
      if sa is not UNDEF:
        return self.call(Bound(sa, v), [name, val], {})
      if isinstance(a, PropVal):
        self.throw(AttributeError, name)
      if v.immutable:
        self.throw(AttributeError, f'cannot assign to field {name}')
      self.raw_setattr(v, name, val)
      return
    if isinstance(v, ClassVal):
      v.attrs[name] = val
      self.wr(v, name)
      return
    if isinstance(v, (SVal, ExtRef, Module)):
      r = self.spec.set_opaque_attr(self, v, name, val)
      if r is not UNDEF:
        return
    raise Unsupported(f'setattr on {v!r}')

  def raw_setattr(self, v, name, val):
    self.spec.on_write(self, v, name, val)
    v.fields[name] = val
    self.wr(v, name)

  def wr(self, obj, cell):
    if self.pure and not isinstance(obj, Frame) and (
        getattr(obj, 'birth', 0) or 0) <= self.pure_start:
      from pyvc import pure
      raise pure.NotPure('writes')
    for log in self.writelogs:
      log.append((obj, cell))

  # ------------------------------------------------------------ truth/equal --

  def truth(self, v):
    """bool or z3 Bool."""
    from pyvc import builtins_model
    if isinstance(v, _CONCRETE):
      return bool(v)
    if isinstance(v, SBool):
      return v.t
    if isinstance(v, SInt):
      return v.t != 0
    if isinstance(v, SReal):
      return v.t != 0
    if isinstance(v, SStr):
      return v.t != z3.StringVal('')
    if isinstance(v, tuple):
      return bool(v)
    if isinstance(v, STup):
      return Length(v.t) > 0
    if isinstance(v, ListObj):
      return bool(v.items) if v.items is not None else Length(v.seq) > 0
    if type(v).__name__ == 'KeysView':
      v = v.d
    if isinstance(v, DictObj):
      if v.items is not None:
        return bool(v.items)
      self.dict_facts(v)
      return v.card > 0
    if isinstance(v, OwnedSet):
      return z3.Not(builtins_model.owned_empty(self, v.d.mem[v.key]))
    if isinstance(v, SetObj):
      if v.items is not None:
        return bool(v.items)
      if getattr(self.spec, 'pure_comps', False):
        from pyvc import pure
        pure.set_facts(self, v)
      return v.card > 0
    if isinstance(v, Obj):
      b, _ = self.class_attr(v.cls, '__bool__')
      if b is not UNDEF:
        return self.truth(self.call(Bound(b, v), [], {}))
      b, _ = self.class_attr(v.cls, '__len__')
      if b is not UNDEF:
        return self.truth(self.call(Bound(b, v), [], {}))
      r = self.spec.obj_truth(self, v)
      if r is not UNDEF:
        return r
      return True
    if isinstance(v, SVal):
      t = v.t
      return z3.If(
          Val.is_none(t), z3.BoolVal(False),
          z3.If(Val.is_bool(t), Val.b(t),
                z3.If(Val.is_int(t), Val.i(t) != 0,
                      z3.If(Val.is_real(t), Val.r(t) != 0,
                            z3.If(Val.is_str(t), Val.s(t) != z3.StringVal(''),
                                  z3.If(Val.is_tup(t), Length(Val.items(t)) > 0,
                                        z3.If(Val.is_lst(t), Length(Val.litems(t)) > 0,
                                              Truthy(Val.id(t)))))))))
    if isinstance(v, OwnedList):
      return Length(self.owned_seq(v)) > 0
    if isinstance(v, (FuncVal, Bound, Builtin, ClassVal, type, ExtRef, Module,
                      PartialVal, IterObj, GenVal, GenExp)):
      return True
    raise Unsupported(f'truth of {v!r}')

  def test(self, v):
    return self.branch(self.truth(v))

  def is_(self, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
      raise Unsupported('poison')
    if isinstance(a, Sym) or isinstance(b, Sym):
      if isinstance(a, SVal) or isinstance(b, SVal):
        return self.tv(a) == self.tv(b)
      if isinstance(a, SBool) or isinstance(b, SBool):
        x, y = (a, b) if isinstance(a, SBool) else (b, a)
        if isinstance(y, (bool, SBool)):
          return x.t == (y.t if isinstance(y, SBool) else z3.BoolVal(y))
        return False
      if type(a) is type(b):
        return a.t == b.t
      if a is None or b is None:
        return False
      return self.tv(a) == self.tv(b)
    if isinstance(a, _CONCRETE) and isinstance(b, _CONCRETE):
      return type(a) is type(b) and a == b
    if isinstance(a, ExtRef) or isinstance(b, ExtRef):
      return a == b if isinstance(a, ExtRef) and isinstance(b, ExtRef) else False
    if isinstance(a, tuple) and isinstance(b, tuple):
      return a is b or (not a and not b)
    return a is b

  def eq(self, a, b):
    """Python ==, as bool or z3 Bool."""
    if isinstance(a, _CONCRETE) and isinstance(b, _CONCRETE):
      return a == b
    num = (bool, int, SInt, SBool)
    if isinstance(a, num) and isinstance(b, num):
      return self.int_t(a) == self.int_t(b)
    real = (float, SReal) + num
    if isinstance(a, real) and isinstance(b, real):
      return self.real_t(a) == self.real_t(b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
      return self.str_t(a) == self.str_t(b)
    if isinstance(a, Obj) or isinstance(b, Obj):
      r = self.spec.obj_eq(self, a, b)
      if r is not UNDEF:
        return r
      for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
          m, where = self.class_attr(x.cls, '__eq__')
          if m is not UNDEF:
            r = self.call(Bound(m, x), [y], {})
            if not (isinstance(r, ExtRef) and r.name == 'NotImplemented'):
              return self.truth(r)
      if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
          return True
        dc = lambda o: any(isinstance(c, ClassVal) and c.dc is not None and
                           c.dc.get('eq', True) is not False for c in self.mro(o.cls))
        if dc(a) and dc(b):
          if a.cls is not b.cls:
            return False
          fs = [self.eq(a.fields[n], b.fields[n]) for n, _ in self.dc_fields(a.cls)]
          return self.conj(fs)
        return False
      o = a if isinstance(a, Obj) else b
      other = b if o is a else a
      if isinstance(other, SVal):
        return z3.Or(other.t == self.tv(o), z3.And(Val.is_ref(other.t), PyEq(self.tv(a), self.tv(b))))
      return False
    if isinstance(a, slice) and isinstance(b, slice):
      return self.conj([self.eq(x, y) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step))])
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b):
        return False
      return self.conj([self.eq(x, y) for x, y in zip(a, b)])
    sq = lambda x: isinstance(x, (tuple, STup))
    if sq(a) and sq(b):
      return self.seq_term(a) == self.seq_term(b)
    if isinstance(a, ListObj) and isinstance(b, ListObj):
      if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
          return False
        return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
      return self.seq_term(a) == self.seq_term(b)
    if isinstance(a, SetObj) and isinstance(b, SetObj):
      if a.items is None or b.items is None:
        return self.set_arr(a) == self.set_arr(b)
      return self.conj([self.contains(a, x) for x in b.items] +
                       [self.contains(b, x) for x in a.items])
    if isinstance(a, SVal) or isinstance(b, SVal):
      r = self.spec.opaque_eq(self, a, b)
      if r is not UNDEF:
        return r
      ta, tb = self.tv(a), self.tv(b)
      prim = lambda t: z3.Not(z3.Or(Val.is_ref(t), Val.is_tup(t), Val.is_lst(t)))
      numv = lambda t: z3.Or(Val.is_int(t), Val.is_bool(t), Val.is_real(t))
      asr = lambda t: z3.If(Val.is_int(t), z3.ToReal(Val.i(t)), z3.If(
          Val.is_bool(t), z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0)), Val.r(t)))
      return z3.If(z3.And(prim(ta), prim(tb)),
                   z3.If(z3.And(numv(ta), numv(tb)), asr(ta) == asr(tb), ta == tb),
                   PyEq(ta, tb))
    if isinstance(a, DictObj) and isinstance(b, DictObj):
      raise Unsupported('dict ==')
    ident = (ExtRef, ClassVal, type, FuncVal, Module, Builtin)
    if isinstance(a, ident) or isinstance(b, ident):
      return self.is_(a, b)
    return False

  def conj(self, fs):
    out = []
    for f in fs:
      if f is False:
        return False
      if f is True:
        continue
      out.append(f)
    if not out:
      return True
    return z3.And(*out) if len(out) > 1 else out[0]

  def int_t(self, v):
    if isinstance(v, bool):
      return z3.IntVal(int(v))
    if isinstance(v, int):
      return z3.IntVal(v)
    if isinstance(v, SInt):
      return v.t
    if isinstance(v, SBool):
      return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f'int of {v!r}')

  def real_t(self, v):
    if isinstance(v, float):
      if v != v or v in (float('inf'), -float('inf')):
        raise Unsupported('non-finite float arithmetic')
      return z3.RealVal(fractions.Fraction(v))
    if isinstance(v, SReal):
      return v.t
    return z3.ToReal(self.int_t(v))

  def str_t(self, v):
    if isinstance(v, str):
      return z3.StringVal(v)
    if isinstance(v, SStr):
      return v.t
    raise Unsupported(f'str of {v!r}')

  def seq_term(self, v):
    if isinstance(v, tuple):
      return self.seq_of(v)
    if isinstance(v, STup):
      return v.t
    if isinstance(v, ListObj):
      return self.seq_of(v.items) if v.items is not None else v.seq
    if isinstance(v, OwnedList):
      return self.owned_seq(v)
    if isinstance(v, SVal):
      if self.branch(Val.is_tup(v.t)):
        return Val.items(v.t)
      if self.branch(Val.is_lst(v.t)):
        return Val.litems(v.t)
    raise Unsupported(f'sequence of {v!r}')

  def owned_seq(self, o):
    if o.d.version != o.version:
      raise Unsupported('stale reference to a list stored in a dict')
    return Val.litems(o.d.val[o.key])

  # -------------------------------------------------------------- dict ops --

  def keyterm(self, k):
    if isinstance(k, Obj):
      r = self.spec.keyrep(self, k)
      if r is not UNDEF:
        return r
      dc = any(isinstance(c, ClassVal) and c.dc is not None for c in self.mro(k.cls))
      if dc:
        return Val.tup(seqs.seq_of_terms(
            [Val.int(z3.IntVal(-self.class_tag(k.cls))), NONE]
            + [self.keyterm(k.fields[n]) for n, _ in self.dc_fields(k.cls)]))
      m, _ = self.class_attr(k.cls, '__eq__')
      if m is not UNDEF:
        raise Unsupported(f'dict key with custom __eq__: {k!r}')
    if isinstance(k, (ListObj, DictObj, SetObj)):
      self.throw(TypeError, 'unhashable')
    if isinstance(k, SVal):
      r = self.spec.opaque_key(self, k)
      if r is not UNDEF:
        return r
    if isinstance(k, tuple):
      if not k:
        return self.tv(k)
      return Val.tup(seqs.seq_of_terms([self.keyterm(x) for x in k]))
    return self.tv(k)

  def dict_promote(self, d):
    if d.items is None:
      return
    items = d.items
    d.dom = z3.K(Val, z3.BoolVal(False))
    d.val = z3.K(Val, NONE)
    d.ord = z3.K(Val, z3.IntVal(0))
    d.nxt = z3.IntVal(0)
    d.card = z3.IntVal(0)
    d.items = None
    d.keyobjs = {}
    d.from_zero = True
    for k, v in items:
      self.dict_set(d, k, v, log=False)
    d.measures = {m: (w, z3.IntVal(0)) for m, (w, _) in d.measures.items()} if not items else d.measures

  def dict_has(self, d, k):
    self.spec.on_dict(self, d, 'has')
    if d.items is not None:
      if isinstance(k, _CONCRETE) and all(isinstance(x, _CONCRETE) for x, _ in d.items):
        return any(x == k for x, _ in d.items)
      kt = self.keyterm(k)
      return self.disj([kt == self.keyterm(x) for x, _ in d.items])
    return d.dom[self.keyterm(k)]

  def disj(self, fs):
    fs = [f for f in fs if f is not False]
    if any(f is True for f in fs):
      return True
    if not fs:
      return False
    return z3.Or(*fs) if len(fs) > 1 else fs[0]

  def dict_read(self, d, kt):
    if d.owns_lists:
      return OwnedList(d, kt, d.version)
    t = d.val[kt]
    return d.wrap(self, t) if d.wrap else self.fv(t)

  def dict_find(self, d, k):
    """Index of k in a concrete dict (forks), or None."""
    for i, (x, _) in enumerate(d.items):
      if isinstance(k, _CONCRETE) and isinstance(x, _CONCRETE):
        if x == k:
          return i
      elif self.branch(self.keyterm(k) == self.keyterm(x)):
        return i
    return None

  def dict_get(self, d, k, default=UNDEF):
    """d[k]; default UNDEF raises KeyError."""
    self.spec.on_dict(self, d, 'get')
    if d.items is not None:
      i = self.dict_find(d, k)
      if i is not None:
        return d.items[i][1]
    else:
      kt = self.keyterm(k)
      if getattr(d, 'merge_get', False) and default is not UNDEF:
        return SVal(z3.If(d.dom[kt], d.val[kt], self.tv(default)))
      if self.branch(d.dom[kt]):
        return self.dict_read(d, kt)
    if default is UNDEF:
      dd = getattr(d, 'default_factory', None)
      if dd is not None:
        v = self.call(dd, [], {})
        self.dict_set(d, k, v)
        return self.dict_get(d, k)
      self.throw(KeyError, k)
    return default

  def dict_set(self, d, k, v, log=True):
    self.spec.on_dict(self, d, 'set')
    if d.items is not None:
      i = self.dict_find(d, k)
      if i is not None:
        d.items[i] = [d.items[i][0], v]
      else:
        d.items.append([k, v])
    else:
      kt = self.keyterm(k)
      if isinstance(v, ListObj) and v.items is not None and (d.owns_lists or not hasattr(d, 'wrote')):
        # A fresh list literal moves into the dict.
        d.owns_lists = True
        vt = Val.lst(self.seq_term(v))
      elif d.owns_lists:
        if isinstance(v, (ListObj, OwnedList)):
          vt = Val.lst(self.seq_term(v))
        else:
          raise Unsupported('mixed list/non-list dict values')
      else:
        vt = self.tv(v)
      d.wrote = True
      self.sd_store(d, kt, vt)
    d.version += 1
    if log:
      self.wr(d, '<content>')

  def sd_store(self, d, kt, vt):
    had = d.dom[kt]
    d.measures = {
        m: (w, z3.simplify(tot + w(vt) - z3.If(had, w(d.val[kt]), z3.IntVal(0))))
        for m, (w, tot) in d.measures.items()
    }
    isnew = self.entails(z3.Not(had)) == 'unsat'
    if isnew:
      d.ord = self.define('ord', z3.Store(d.ord, kt, d.nxt))
      d.nxt = z3.simplify(d.nxt + 1)
      d.card = z3.simplify(d.card + 1)
    else:
      d.ord = self.define('ord', z3.Store(d.ord, kt, z3.If(had, d.ord[kt], d.nxt)))
      d.nxt = z3.If(had, d.nxt, d.nxt + 1)
      d.card = z3.If(had, d.card, d.card + 1)
    d.val = self.define('val', z3.Store(d.val, kt, vt))
    d.dom = self.define('dom', z3.Store(d.dom, kt, z3.BoolVal(True)))

  def define(self, name, t):
    """Names a term (keeps quantifier triggers simple)."""
    c = self.fresh(name, t.sort())
    self.assume(c == t)
    return c

  def sd_remove(self, d, kt):
    """Removes a present key."""
    d.measures = {m: (w, tot - w(d.val[kt]))
                  for m, (w, tot) in d.measures.items()}
    d.dom = self.define('dom', z3.Store(d.dom, kt, z3.BoolVal(False)))
    d.card = d.card - 1

  def dict_pop(self, d, k, default=UNDEF):
    self.spec.on_dict(self, d, 'pop')
    if d.items is not None:
      i = self.dict_find(d, k)
      if i is not None:
        v = d.items.pop(i)[1]
        d.version += 1
        self.wr(d, '<content>')
        return v
    else:
      kt = self.keyterm(k)
      if self.branch(d.dom[kt]):
        if d.owns_lists:
          v = self.new_list_sym(Val.litems(d.val[kt]))
        else:
          v = self.dict_read(d, kt)
        self.sd_remove(d, kt)
        d.version += 1
        self.wr(d, '<content>')
        return v
    if default is UNDEF:
      self.throw(KeyError, k)
    return default

  def dict_keyseq(self, d, tag='keys'):
    """Snapshot of the keys in insertion order, as a z3 Seq with its facts."""
    self.spec.on_dict(self, d, 'iter')
    self.nfresh += 1
    at = z3.Function(f'{tag}_at!{self.nfresh}', z3.IntSort(), Val)
    idx = z3.Function(f'{tag}_idx!{self.nfresh}', Val, z3.IntSort())
    i, j = z3.Ints('i j')
    k = z3.Const('k', Val)
    n = d.card
    dom, ord_ = d.dom, d.ord
    self.assume(FA([i], z3.Implies(
        z3.And(0 <= i, i < n), z3.And(dom[at(i)], idx(at(i)) == i)), patterns=[at(i)]))
    self.assume(FA([k], z3.Implies(
        dom[k], z3.And(0 <= idx(k), idx(k) < n, at(idx(k)) == k)), patterns=[idx(k)]))
    self.assume(FA([k], z3.Implies(
        dom[k], z3.And(0 <= idx(k), idx(k) < n, at(idx(k)) == k)), patterns=[dom[k]]))
    self.assume(FA([i, j], z3.Implies(
        z3.And(0 <= i, i < j, j < n), ord_[at(i)] < ord_[at(j)]),
                   patterns=[z3.MultiPattern(at(i), at(j))]))
    if getattr(d, 'from_zero', False):
      # stamps are handed out from 0: without removals they are the positions
      self.assume(z3.Implies(d.nxt == d.card, FA([i], z3.Implies(
          z3.And(0 <= i, i < n), ord_[at(i)] == i), patterns=[at(i)])))
    self.dict_facts(d)
    return KeySeq(n, at, idx)

  # --------------------------------------------------------------- set ops --

  def set_arr(self, s):
    if s.items is not None:
      a = z3.K(Val, z3.BoolVal(False))
      for x in s.items:
        a = z3.Store(a, self.keyterm(x), z3.BoolVal(True))
      return a
    return s.dom

  def set_promote(self, s):
    if s.items is None:
      return
    s.dom = self.set_arr(s)
    s.card = z3.IntVal(0)
    a = z3.K(Val, z3.BoolVal(False))
    for x in s.items:
      kt = self.keyterm(x)
      s.card = s.card + z3.If(a[kt], z3.IntVal(0), z3.IntVal(1))
      a = z3.Store(a, kt, z3.BoolVal(True))
    s.items = None

  def set_add(self, s, x):
    if s.items is not None:
      c = self.contains(s, x)
      if self.branch(z3.Not(c) if is_z3(c) else not c):
        s.items.append(x)
    else:
      kt = self.keyterm(x)
      s.card = z3.If(s.dom[kt], s.card, s.card + 1)
      s.dom = z3.Store(s.dom, kt, z3.BoolVal(True))
    self.wr(s, '<content>')

  def contains(self, c, x):
    """x in c as bool / z3 Bool."""
    if isinstance(c, DictObj):
      return self.dict_has(c, x)
    if isinstance(c, SetDict):
      return c.dom[self.keyterm(x)]
    if isinstance(c, OwnedSet):
      return c.d.mem[c.key][self.keyterm(x)]
    if isinstance(c, SetObj):
      if c.items is not None:
        if isinstance(x, _CONCRETE) and all(isinstance(y, _CONCRETE) for y in c.items):
          return any(y == x for y in c.items)
        kt = self.keyterm(x)
        return self.disj([kt == self.keyterm(y) for y in c.items])
      return c.dom[self.keyterm(x)]
    if isinstance(c, (tuple,)):
      return self.disj([self.disj([self.is_(y, x), self.eq(y, x)]) if not isinstance(y, _CONCRETE) else self.eq(y, x) for y in c])
    if isinstance(c, ListObj) and c.items is not None:
      return self.contains(tuple(c.items), x)
    if isinstance(c, (ListObj, STup)):
      return seqs.has(self.seq_term(c), self.keyterm(x))
    if isinstance(c, (str, SStr)) and isinstance(x, (str, SStr)):
      if isinstance(c, str) and isinstance(x, str):
        return x in c
      return z3.Contains(self.str_t(c), self.str_t(x))
    if isinstance(c, SVal):
      r = self.spec.opaque_contains(self, c, x)
      if r is not UNDEF:
        return r
      c2 = self.unopaque(c)
      if not isinstance(c2, SVal):
        return self.contains(c2, x)
    if isinstance(c, Obj):
      m, _ = self.class_attr(c.cls, '__contains__')
      if m is not UNDEF:
        return self.truth(self.call(Bound(m, c), [x], {}))
    from pyvc import builtins_model
    r = builtins_model.contains(self, c, x)
    if r is not UNDEF:
      return r
    raise Unsupported(f'in on {c!r}')

  # ------------------------------------------------------------ statements --

  def exec_block(self, stmts, fr):
    for st in stmts:
      self.exec(st, fr)

  def exec(self, st, fr):
    self.where = f'{fr.module.path}:{getattr(st, "lineno", 0)}'
    m = getattr(self, 'x_' + type(st).__name__, None)
    if m is None:
      raise Unsupported(f'statement {type(st).__name__}')
    m(st, fr)

  def x_Expr(self, st, fr):
    if isinstance(st.value, ast.Constant):
      return
    self.ev(st.value, fr)

  def x_Pass(self, st, fr):
    pass

  def x_Return(self, st, fr):
    raise ReturnSig(None if st.value is None else self.ev(st.value, fr))

  def x_Break(self, st, fr):
    raise BreakSig()

  def x_Continue(self, st, fr):
    raise ContinueSig()

  def x_Global(self, st, fr):
    fr.globals_.update(st.names)

  def x_Nonlocal(self, st, fr):
    fr.nonlocals.update(st.names)

  def x_If(self, st, fr):
    if self.test(self.ev(st.test, fr)):
      self.exec_block(st.body, fr)
    else:
      self.exec_block(st.orelse, fr)

  def x_Assert(self, st, fr):
    if not self.test(self.ev(st.test, fr)):
      self.throw(AssertionError)

  def x_Assign(self, st, fr):
    v = self.ev(st.value, fr)
    for t in st.targets:
      self.assign(t, v, fr)

  def x_AnnAssign(self, st, fr):
    if st.value is not None:
      self.assign(st.target, self.ev(st.value, fr), fr)

  def x_AugAssign(self, st, fr):
    t = st.target
    if isinstance(t, ast.Name):
      old = self.lookup(fr, t.id)
      self.assign(t, self.augop(st.op, old, self.ev(st.value, fr)), fr)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, fr)
      old = self.getattr(o, t.attr)
      self.setattr(o, t.attr, self.augop(st.op, old, self.ev(st.value, fr)))
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, fr)
      k = self.ev(t.slice, fr)
      old = self.getitem(o, k)
      self.setitem(o, k, self.augop(st.op, old, self.ev(st.value, fr)))
    else:
      raise Unsupported('augassign target')

  def augop(self, op, a, b):
    if isinstance(op, ast.Add) and isinstance(a, ListObj):
      from pyvc import builtins_model
      builtins_model.list_extend(self, a, b)
      return a
    if isinstance(op, ast.BitOr) and isinstance(a, SetObj):
      from pyvc import builtins_model
      builtins_model.set_update(self, a, b)
      return a
    return self.binop(op, a, b)

  def setlocal(self, fr, name, v):
    if name in fr.globals_:
      self.modglobals[(fr.module.name, name)] = v
      self.wr(fr.module, name)
      return
    f = fr
    if name in fr.nonlocals:
      f = fr.closure.find(name)
    f.locals[name] = v
    self.wr(f, name)

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      self.setlocal(fr, t.id, v)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, fr)
      self.setitem(o, self.ev(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      self.unpack(t.elts, v, fr)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, fr)
    else:
      raise Unsupported(f'assignment target {type(t).__name__}')

  def unpack(self, elts, v, fr):
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if isinstance(v, SVal):
      v = self.unopaque(v)
    if isinstance(v, ListObj) and v.items is not None:
      v = tuple(v.items)
    if isinstance(v, STup) or (isinstance(v, ListObj)):
      s = self.seq_term(v)
      n = Length(s)
      if star:
        k = len(elts) - 1
        if not self.branch(n >= k):
          self.throw(ValueError, 'unpack')
        j = star[0]
        after = len(elts) - j - 1
        for i in range(j):
          self.assign(elts[i], self.fv(s[i]), fr)
        self.assign(elts[j], self.new_list_sym(
            seqs.sub(s, z3.IntVal(j), n - k)), fr)
        for i in range(after):
          self.assign(elts[j + 1 + i], self.fv(s[n - after + i]), fr)
        return
      if not self.branch(n == len(elts)):
        self.throw(ValueError, 'unpack')
      for i, e in enumerate(elts):
        self.assign(e, self.fv(s[i]), fr)
      return
    if not isinstance(v, tuple):
      from pyvc import builtins_model
      v = builtins_model.as_tuple(self, v)
      if isinstance(v, STup):
        return self.unpack(elts, v, fr)
    if star:
      j = star[0]
      after = len(elts) - j - 1
      if len(v) < len(elts) - 1:
        self.throw(ValueError, 'unpack')
      for i in range(j):
        self.assign(elts[i], v[i], fr)
      mid = v[j:len(v) - after]
      if len(mid) == 1 and isinstance(mid[0], _SymTail):
        mid_v = self.new_list_sym(mid[0].seq)
      else:
        mid_v = self.new_list(mid)
      self.assign(elts[j], mid_v, fr)
      for i in range(after):
        self.assign(elts[j + 1 + i], v[len(v) - after + i], fr)
      return
    if len(v) != len(elts):
      self.throw(ValueError, 'unpack')
    for e, x in zip(elts, v):
      self.assign(e, x, fr)

  def x_Delete(self, st, fr):
    for t in st.targets:
      if isinstance(t, ast.Subscript):
        o = self.ev(t.value, fr)
        k = self.ev(t.slice, fr)
        if isinstance(o, DictObj):
          self.dict_pop(o, k)
        elif isinstance(o, ListObj) and o.items is not None and isinstance(k, int):
          if not -len(o.items) <= k < len(o.items):
            self.throw(IndexError)
          del o.items[k]
          self.wr(o, '<content>')
        else:
          raise Unsupported('del subscript')
      elif isinstance(t, ast.Name):
        f = fr.find(t.id)
        del f.locals[t.id]
      elif isinstance(t, ast.Attribute):
        o = self.ev(t.value, fr)
        if isinstance(o, Obj) and t.attr in o.fields:
          self.spec.on_write(self, o, t.attr, UNDEF)
          del o.fields[t.attr]
          self.wr(o, t.attr)
        else:
          raise Unsupported('del attribute')
      else:
        raise Unsupported('del')

  def x_Raise(self, st, fr):
    if st.exc is None:
      if not self.cur_exc:
        self.throw(RuntimeError)
      raise PyRaise(self.cur_exc[-1])
    v = self.ev(st.exc, fr)
    if isinstance(v, (type, ClassVal)):
      v = self.call(v, [], {})
    if st.cause is not None:
      self.ev(st.cause, fr)
    if isinstance(v, ExtRef):
      raise Unsupported('raise external')
    raise PyRaise(v)

  def x_Try(self, st, fr):
    try:
      try:
        self.exec_block(st.body, fr)
      except PyRaise as e:
        for h in st.handlers:
          if h.type is None:
            ok = True
          else:
            ok = self.exc_matches(e.exc, self.ev(h.type, fr))
          if ok:
            if h.name:
              self.setlocal(fr, h.name, e.exc)
            self.cur_exc.append(e.exc)
            try:
              self.exec_block(h.body, fr)
            finally:
              self.cur_exc.pop()
              if h.name:
                fr.locals.pop(h.name, None)
            break
        else:
          raise
      else:
        self.exec_block(st.orelse, fr)
    except (PyRaise, ReturnSig, BreakSig, ContinueSig):
      # finally may override the outcome by raising its own signal.
      self.exec_block(st.finalbody, fr)
      raise
    else:
      self.exec_block(st.finalbody, fr)

  def x_With(self, st, fr):
    self.with_items(list(st.items), st.body, fr)

  def with_items(self, items, body, fr):
    if not items:
      self.exec_block(body, fr)
      return
    item = items[0]
    cm = self.ev(item.context_expr, fr)

    def run(value):
      if item.optional_vars is not None:
        self.assign(item.optional_vars, value, fr)
      self.with_items(items[1:], body, fr)

    self.with_cm(cm, run)

  def with_cm(self, cm, run):
    """Runs `run(value)` under context manager `cm`."""
    if isinstance(cm, GenVal) and cm.fn.cm:
      state = {'n': 0, 'sig': None}

      def on_yield(v):
        state['n'] += 1
        if state['n'] > 1:
          self.throw(RuntimeError, "generator didn't stop")
        try:
          run(v)
        except (ReturnSig, BreakSig, ContinueSig) as sig:
          state['sig'] = sig
        return None

      cm.frame.yield_cb = on_yield
      self.run_body(cm.fn, cm.frame)
      if state['n'] == 0:
        self.throw(RuntimeError, "generator didn't yield")
      if state['sig'] is not None:
        raise state['sig']
      return
    r = self.spec.with_model(self, cm, run)
    if r is not UNDEF:
      return
    from pyvc import builtins_model
    ent = builtins_model.cm_methods(self, cm)
    if ent is UNDEF:
      if isinstance(cm, Obj):
        en, _ = self.class_attr(cm.cls, '__enter__')
        ex, _ = self.class_attr(cm.cls, '__exit__')
        if en is UNDEF or ex is UNDEF:
          raise Unsupported(f'context manager {cm!r}')
        enter = lambda: self.call(Bound(en, cm), [], {})
        exit_ = lambda e: self.call(
            Bound(ex, cm), [None, None, None] if e is None else
            [e.cls, e, None], {})
      else:
        raise Unsupported(f'context manager {cm!r}')
    else:
      enter, exit_ = ent
    v = enter()
    try:
      run(v)
    except PyRaise as e:
      if self.test(exit_(e.exc)):
        return
      raise
    except (ReturnSig, BreakSig, ContinueSig):
      exit_(None)
      raise
    exit_(None)

  def x_FunctionDef(self, st, fr):
    self.setlocal(fr, st.name, self.make_func(
        st, fr, None, (fr.fn.qualname + '.<locals>.' if fr.fn else '') + st.name, closure=fr))

  def x_ClassDef(self, st, fr):
    self.setlocal(fr, st.name, self.make_class(st, fr, closure=fr))

  def x_Import(self, st, fr):
    for a in st.names:
      self.setlocal(fr, a.asname or a.name.split('.')[0],
                    self.import_module(a.name if a.asname else a.name.split('.')[0]))

  def x_ImportFrom(self, st, fr):
    for a in st.names:
      self.setlocal(fr, a.asname or a.name, self.import_from(st.module, a.name))

  # ----------------------------------------------------------------- loops --

  def x_For(self, st, fr):
    it = self.ev(st.iter, fr)

    def body(x):
      self.assign(st.target, x, fr)
      self.exec_block(st.body, fr)

    try:
      self.iterate(it, body, st, fr)
    except BreakSig:
      return
    self.exec_block(st.orelse, fr)

  def iterate(self, it, body, node, fr, acc=None):
    """Runs body(x) for each element; symbolic sequences use invariants."""
    from pyvc import builtins_model
    if isinstance(it, _Source):
      src = it.src if it.src is not None else builtins_model.iter_source(self, it.v)
    elif isinstance(it, EnumPairs) and it.on_end is not None:
      self.sym_for(it.length, it.at, it, body, node, fr, acc)
      it.on_end()
      return
    else:
      src = builtins_model.iter_source(self, it)
    if isinstance(src, list):
      for x in src:
        try:
          body(x)
        except ContinueSig:
          pass
      return
    if isinstance(src, GenVal):
      state = {}

      def on_yield(v):
        try:
          body(v)
        except ContinueSig:
          pass
        except BreakSig:
          raise _GenBreak(src)
        return None

      src.frame.yield_cb = on_yield
      try:
        self.run_body(src.fn, src.frame)
      except _GenBreak as g:
        if g.gen is src:
          raise BreakSig()
        raise
      return
    if isinstance(src, GenExp):
      self.run_comp(src.node.generators, 0, src.frame_copy(),
                    lambda f: body(self.ev(src.node.elt, f)))
      return
    # Symbolic sequence with a length and an accessor.
    length, at, seqval = src
    self.sym_for(length, at, seqval, body, node, fr, acc)

  def loop_key(self, node):
    k = ('/'.join(self.callstack), getattr(node, 'lineno', 0),
         getattr(node, 'col_offset', 0), type(node).__name__)
    if seqs.ABS[0]:
      n = self.loop_count.get(k, 0)
      self.loop_count[k] = n + 1
      k += (tuple(self.options), n)
    if k in self.eng.__dict__.setdefault('split_loops', set()):
      # paths that reach this loop differ in what they created before it
      k += (('split', self.clock),)
    return k

  def lost(self, L_key, what):
    """A cell written by the loop on another path is not on this one."""
    if L_key is not None and L_key not in self.eng.split_loops and not (isinstance(L_key[-1], tuple) and L_key[-1][:1] == ('split',)):
      self.eng.split_loops.add(L_key)
      raise Restart()
    raise Unsupported(what)

  def sym_for(self, length, at, seqval, body, node, fr, acc):
    L = LoopCtx()
    L.node, L.frame, L.length, L.at, L.seqval, L.acc = (
        node, fr, length, at, seqval, acc)
    L.kind = 'for'
    L.key = self.loop_key(node)
    L.i = z3.IntVal(0)
    mem = self.eng.loopmem.setdefault(L.key, LoopMem())
    self.cut(L, mem, 'entry')
    arbitrary = self.choose('loop')
    self.havoc_loop(mem, fr, L.key)
    i = self.fresh('i', z3.IntSort())
    L.i = i
    if arbitrary:
      self.assume(z3.And(0 <= i, i < length))
      self.assume_inv(L, mem)
      log = []
      self.writelogs.append(log)
      start = self.tick()
      try:
        try:
          body(at(i))
        except ContinueSig:
          pass
      finally:
        self.writelogs.remove(log)
      self.check_writes(mem, log, start, fr)
      L.i = i + 1
      self.cut(L, mem, 'step')
      raise PathEnd()
    self.assume(i == length)
    self.assume_inv(L, mem)

  def x_While(self, st, fr):
    # A while loop whose condition is concretely decided is simply run.
    n = 0
    L = None
    while True:
      if n <= 64 and not self._needs_invariant(st, fr):
        if not self.test(self.ev(st.test, fr)):
          self.exec_block(st.orelse, fr)
          return
        n += 1
        try:
          self.exec_block(st.body, fr)
        except ContinueSig:
          pass
        except BreakSig:
          return
        continue
      break
    L = LoopCtx()
    L.node, L.frame, L.kind = st, fr, 'while'
    L.key = self.loop_key(st)
    mem = self.eng.loopmem.setdefault(L.key, LoopMem())
    self.cut(L, mem, 'entry')
    arbitrary = self.choose('loop')
    self.havoc_loop(mem, fr, L.key)
    self.assume_inv(L, mem)
    log = []
    self.writelogs.append(log)
    start = self.tick()
    try:
      c = self.test(self.ev(st.test, fr))
      if arbitrary:
        if not c:
          raise PathEnd()
        var0 = self.spec.variant(self, L)
        try:
          self.exec_block(st.body, fr)
        except ContinueSig:
          pass
        except BreakSig:
          self.writelogs.remove(log)
          log = None
          return
      else:
        if c:
          raise PathEnd()
        self.writelogs.remove(log)
        log = None
        self.exec_block(st.orelse, fr)
        return
    finally:
      if log is not None:
        self.writelogs.remove(log)
    self.check_writes(mem, log, start, fr)
    self.cut(L, mem, 'step')
    if var0 is not None:
      var1 = self.spec.variant(self, L)
      self.oblige('termination of loop: variant decreases and is bounded below',
                  z3.And(var0 >= 0, var1 < var0))
    raise PathEnd()

  def _needs_invariant(self, st, fr):
    """Decides (without side effects) whether the loop needs a cut."""
    return self.spec.cut_while(self, st, fr)

  def cut(self, L, mem, phase):
    """Entry/step check of the candidate invariants (Houdini)."""
    if phase == 'entry':
      L.data = {}
    self.sig = hash((self.sig, L.key, phase, frozenset(mem.dropped),
                     frozenset(mem.writes.items()), frozenset(getattr(mem, 'owned', ()))))
    L.phase = phase
    cands = self.spec.loop_invariants(self, L)
    if phase == 'entry':
      L.entry_done = True
    if self.replaying():
      return
    bad = False
    for name, f in cands:
      if name in mem.dropped:
        continue
      if f is True:
        continue
      st = 'sat' if f is False else self.entails(f, 2000, True)
      if st != 'unsat':
        bad = True
        mem.dropped.add(name)
        self.eng.__dict__.setdefault('drop_log', []).append(
            (L.key, phase, name, st))
    if bad:
      raise Restart()

  def assume_inv(self, L, mem):
    L.phase = 'assume'
    for name, f in self.spec.loop_invariants(self, L):
      if name not in mem.dropped:
        self.assume(f)

  def check_writes(self, mem, log, start, fr):
    if self.replaying():
      return
    changed = False
    for obj, cell in log:
      birth = getattr(obj, 'birth', 0)
      if birth and birth > start:
        continue
      key = self.cell_key(obj, cell)
      kind = self.cell_kind(obj, cell)
      old = mem.writes.get(key)
      if old is None:
        mem.writes[key] = kind
        changed = True
      elif old != kind:
        j = self.join_kind(old, kind)
        if j != old:
          mem.writes[key] = j
          changed = True
    if changed:
      raise Restart()

  def cell_key(self, obj, cell):
    if isinstance(obj, Frame):
      return ('frame', obj.birth, cell)
    if isinstance(obj, Module):
      return ('module', obj.name, cell)
    if isinstance(obj, ClassVal):
      return ('class', obj.birth, cell)
    return ('heap', obj.ref, cell)

  def cell_kind(self, obj, cell):
    if cell == '<content>':
      return 'content'
    if isinstance(obj, Frame):
      v = obj.locals.get(cell, UNDEF)
    elif isinstance(obj, Module):
      v = self.modglobals.get((obj.name, cell), UNDEF)
    elif isinstance(obj, ClassVal):
      v = obj.attrs.get(cell, UNDEF)
    else:
      v = obj.fields.get(cell, UNDEF)
    return self.kind_of(v)

  def kind_of(self, v):
    if isinstance(v, (bool, SBool)):
      return 'bool'
    if isinstance(v, (int, SInt)):
      return 'int'
    if isinstance(v, (float, SReal)):
      return 'real'
    if isinstance(v, (str, SStr)):
      return 'str'
    if v is None:
      return 'none'
    if isinstance(v, SVal):
      return 'val'
    if isinstance(v, (STup, tuple)):
      return 'tup'
    if isinstance(v, ListObj):
      return 'newlist'
    if isinstance(v, DictObj):
      return 'newdict'
    if isinstance(v, Obj):
      r = self.spec.obj_kind(self, v)
      if r is not UNDEF:
        return r
    return 'poison'

  def join_kind(self, a, b):
    if a == b:
      return a
    prims = {'bool', 'int', 'real', 'str', 'none', 'val', 'tup'}
    if a in prims and b in prims:
      return 'val'
    return 'poison'

  def fresh_kind(self, kind, name):
    if kind == 'int':
      return SInt(self.fresh(name, z3.IntSort()))
    if kind == 'bool':
      return SBool(self.fresh(name, z3.BoolSort()))
    if kind == 'real':
      return SReal(self.fresh(name, z3.RealSort()))
    if kind == 'str':
      return SStr(self.fresh(name, z3.StringSort()))
    if kind == 'tup':
      return STup(self.fresh(name, SeqVal))
    if kind == 'val':
      return SVal(self.fresh(name, Val))
    if kind == 'none':
      return None
    if isinstance(kind, tuple):
      return self.spec.fresh_obj(self, kind, name)
    if kind == 'newlist':
      return self.new_list_sym(self.fresh(name, SeqVal))
    return Poison()

  def havoc_loop(self, mem, fr, lkey=None):
    frames = {}
    f = fr
    while f is not None:
      frames[f.birth] = f
      f = f.closure
    for f2 in getattr(self, 'extra_frames', []):
      frames[f2.birth] = f2
    for key, kind in list(mem.writes.items()):
      what, ident, cell = key
      if what == 'frame':
        f = frames.get(ident)
        if f is None:
          self.lost(lkey, f'loop writes a frame that cannot be located ({cell})')
        cur = f.locals.get(cell, UNDEF)
        if cur is UNDEF or isinstance(cur, Poison):
          f.locals[cell] = Poison()
          continue
        k = self.join_kind(self.kind_of(cur), kind)
        f.locals[cell] = self.fresh_kind(k, cell)
      elif what == 'heap':
        o = self.objs.get(ident)
        if o is None:
          self.lost(lkey, 'loop writes an object that cannot be located')
        if cell == '<content>':
          if isinstance(o, ListObj):
            o.items = None
            o.seq = self.fresh('lst', SeqVal)
          elif isinstance(o, DictObj):
            if o.items is not None:
              self.dict_promote(o)
            owns = o.owns_lists
            self.havoc_dict(o, 'dict')
            o.owns_lists = owns or getattr(o, 'will_own_lists', False) or key in getattr(mem, 'owned', ())
          elif isinstance(o, SetDict):
            o.dom = self.fresh('sd_dom', z3.ArraySort(Val, z3.BoolSort()))
            o.mem = self.fresh('sd_mem', z3.ArraySort(Val, z3.ArraySort(Val, z3.BoolSort())))
          elif isinstance(o, SetObj):
            self.set_promote(o)
            o.dom = self.fresh('set_dom', z3.ArraySort(Val, z3.BoolSort()))
            o.card = self.fresh('set_card', z3.IntSort())
            self.assume(o.card >= 0)
          else:
            raise Unsupported('havoc content')
        else:
          cur = o.fields.get(cell, UNDEF)
          if cur is UNDEF:
            raise Unsupported(f'loop creates field {cell}')
          k = self.join_kind(self.kind_of(cur), kind)
          o.fields[cell] = self.fresh_kind(k, cell)
      elif what == 'module':
        cur = self.modglobals[(ident, cell)]
        k = self.join_kind(self.kind_of(cur), kind)
        self.modglobals[(ident, cell)] = self.fresh_kind(k, cell)
      else:
        h = self.spec.havoc_class_attr(self, key)
        if h is UNDEF:
          raise Unsupported('loop writes a class attribute')
    self.spec.after_havoc(self)

  # ----------------------------------------------------------- expressions --

  def ev(self, e, fr):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported(f'expression {type(e).__name__}')
    return m(e, fr)

  def e_Constant(self, e, fr):
    return e.value

  def e_Name(self, e, fr):
    return self.lookup(fr, e.id)

  def e_Attribute(self, e, fr):
    v = self.ev(e.value, fr)
    attr = e.attr
    if attr.startswith('__') and not attr.endswith('__') and fr.cls is not None:
      attr = f'_{fr.cls.name.lstrip("_")}{attr}'
    return self.getattr(v, attr)

  def e_NamedExpr(self, e, fr):
    v = self.ev(e.value, fr)
    self.assign(e.target, v, fr)
    return v

  def e_Tuple(self, e, fr):
    return self.seq_display(e.elts, fr)

  def seq_display(self, elts, fr):
    from pyvc import builtins_model
    parts = []
    symbolic = False
    for x in elts:
      if isinstance(x, ast.Starred):
        v = builtins_model.as_tuple(self, self.ev(x.value, fr))
        parts.append(v)
        symbolic = symbolic or isinstance(v, STup)
      else:
        parts.append((self.ev(x, fr),))
    if not symbolic:
      return tuple(y for p in parts for y in p)
    ts = [self.seq_term(p) for p in parts]
    return STup(seqs.cat(*ts))

  def e_List(self, e, fr):
    t = self.seq_display(e.elts, fr)
    if isinstance(t, STup):
      return self.new_list_sym(t.t)
    return self.new_list(t)

  def e_Set(self, e, fr):
    t = self.seq_display(e.elts, fr)
    if isinstance(t, STup):
      raise Unsupported('set display')
    s = self.new_set()
    for x in t:
      self.set_add(s, x)
    return s

  def e_Dict(self, e, fr):
    d = self.new_dict()
    for k, v in zip(e.keys, e.values):
      if k is None:
        from pyvc import builtins_model
        builtins_model.dict_update(self, d, self.ev(v, fr))
      else:
        kk = self.ev(k, fr)
        self.dict_set(d, kk, self.ev(v, fr))
    return d

  def e_Lambda(self, e, fr):
    return self.make_func(e, fr, None, (fr.fn.qualname if fr.fn else fr.module.name) + '.<lambda>', closure=fr)

  def e_IfExp(self, e, fr):
    if self.pure:
      from pyvc import pure
      c = pure.pure_truth(self, e.test, fr)
      if is_z3(c):
        c = z3.simplify(c)
        if self._sat(z3.Not(c)) == z3.unsat:
          c = True
        elif self._sat(c) == z3.unsat:
          c = False
      if isinstance(c, bool):
        return self.ev(e.body if c else e.orelse, fr)
      return pure.pure_ite(self, c, lambda: self.ev(e.body, fr),
                           lambda: self.ev(e.orelse, fr))
    return self.ev(e.body if self.test(self.ev(e.test, fr)) else e.orelse, fr)

  def e_BoolOp(self, e, fr):
    if self.pure and all(
        isinstance(x, (ast.Compare, ast.BoolOp)) or isinstance(x, ast.UnaryOp)
        and isinstance(x.op, ast.Not) for x in e.values):
      from pyvc import pure
      t = pure.pure_truth(self, e, fr)
      return t if isinstance(t, bool) else SBool(t)
    v = None
    for i, x in enumerate(e.values):
      v = self.ev(x, fr)
      if i == len(e.values) - 1:
        return v
      t = self.test(v)
      if isinstance(e.op, ast.And):
        if not t:
          return v
      elif t:
        return v
    return v

  def e_UnaryOp(self, e, fr):
    v = self.ev(e.operand, fr)
    if isinstance(e.op, ast.Not):
      t = self.truth(v)
      return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
    if isinstance(v, SVal):
      v = self.unopaque(v)
    if isinstance(e.op, ast.USub):
      if isinstance(v, (int, float)):
        return -v
      if isinstance(v, SInt):
        return SInt(-v.t)
      if isinstance(v, SReal):
        return SReal(-v.t)
    if isinstance(e.op, ast.UAdd) and isinstance(v, (int, float, SInt, SReal)):
      return v
    if isinstance(e.op, ast.Invert) and isinstance(v, int):
      return ~v
    if isinstance(v, Obj):
      nm = {ast.USub: '__neg__', ast.Invert: '__invert__'}.get(type(e.op))
      m, _ = self.class_attr(v.cls, nm) if nm else (UNDEF, None)
      if m is not UNDEF:
        return self.call(Bound(m, v), [], {})
    raise Unsupported('unary op')

  def e_BinOp(self, e, fr):
    a = self.ev(e.left, fr)
    b = self.ev(e.right, fr)
    return self.binop(e.op, a, b)

  _DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
             ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.Mod: 'mod',
             ast.FloorDiv: 'floordiv', ast.LShift: 'lshift', ast.RShift: 'rshift',
             ast.Pow: 'pow', ast.MatMult: 'matmul'}

  def binop(self, op, a, b):
    from pyvc import builtins_model
    r = self.spec.binop(self, op, a, b)
    if r is not UNDEF:
      return r
    if isinstance(a, Obj) or isinstance(b, Obj):
      n = self._DUNDER.get(type(op))
      if isinstance(a, Obj):
        m, _ = self.class_attr(a.cls, f'__{n}__')
        if m is not UNDEF:
          return self.call(Bound(m, a), [b], {})
      if isinstance(b, Obj):
        m, _ = self.class_attr(b.cls, f'__r{n}__')
        if m is not UNDEF:
          return self.call(Bound(m, b), [a], {})
      raise Unsupported('operator on object')
    a = self.unopaque(a)
    b = self.unopaque(b)
    return builtins_model.binop(self, op, a, b)

  def e_Compare(self, e, fr):
    left = self.ev(e.left, fr)
    res = None
    for i, (op, rn) in enumerate(zip(e.ops, e.comparators)):
      right = self.ev(rn, fr)
      r = self.rich_compare(op, left, right)
      if r is UNDEF:
        r = self.compare(op, left, right)
      if i == len(e.ops) - 1:
        return r if not is_z3(r) else SBool(r)
      if not self.test(SBool(r) if is_z3(r) else r):
        return False
      left = right
    return res

  def rich_compare(self, op, a, b):
    """The raw result of a comparison whose left operand defines the method, or UNDEF."""
    n = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
         ast.Eq: 'eq', ast.NotEq: 'ne'}.get(type(op))
    if n is None or not isinstance(a, Obj) or (isinstance(b, Obj) and b.cls is not a.cls):
      return UNDEF
    if n in ('eq', 'ne') and self.spec.obj_eq(self, a, b) is not UNDEF:
      return UNDEF
    m, _ = self.class_attr(a.cls, f'__{n}__')
    if m is UNDEF:
      return UNDEF
    r = self.call(Bound(m, a), [b], {})
    if isinstance(r, ExtRef) and r.name == 'NotImplemented':
      return UNDEF
    return r

  def compare(self, op, a, b):
    from pyvc import builtins_model
    neg = lambda x: (not x) if isinstance(x, bool) else z3.Not(x)
    if isinstance(op, ast.Is):
      return self.is_(a, b)
    if isinstance(op, ast.IsNot):
      return neg(self.is_(a, b))
    if isinstance(op, ast.Eq):
      return self.eq(a, b)
    if isinstance(op, ast.NotEq):
      if isinstance(a, Obj):
        m, _ = self.class_attr(a.cls, '__ne__')
        if m is not UNDEF:
          return self.truth(self.call(Bound(m, a), [b], {}))
      return neg(self.eq(a, b))
    if isinstance(op, ast.In):
      return self.contains(b, a)
    if isinstance(op, ast.NotIn):
      return neg(self.contains(b, a))
    return builtins_model.order(self, op, a, b)

  def e_Call(self, e, fr):
    # super() without arguments
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      f = fr
      while f is not None and f.cls is None:
        f = f.closure
      if f is None:
        raise Unsupported('super()')
      first = f.fn.node.args.posonlyargs + f.fn.node.args.args
      return SuperVal(f.cls, f.locals[first[0].arg])
    if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars', 'eval', 'exec'):
      raise Unsupported(e.func.id)
    fn = self.ev(e.func, fr)
    args = []
    kwargs = {}
    from pyvc import builtins_model
    for a in e.args:
      if isinstance(a, ast.Starred):
        v = self.ev(a.value, fr)
        if isinstance(v, ListObj) and v.items is not None:
          args.extend(v.items)
        else:
          t = builtins_model.as_tuple(self, v)
          if isinstance(t, STup):
            args.append(_StarSeq(t.t))
          else:
            args.extend(t)
      else:
        args.append(self.ev(a, fr))
    for k in e.keywords:
      if k.arg is None:
        d = self.ev(k.value, fr)
        if not isinstance(d, DictObj) or d.items is None:
          if isinstance(d, DictObj):
            kwargs['**'] = d
            continue
          raise Unsupported('** of symbolic mapping')
        for kk, vv in d.items:
          if not isinstance(kk, str):
            raise Unsupported('** with symbolic keys')
          kwargs[kk] = vv
      else:
        kwargs[k.arg] = self.ev(k.value, fr)
    saved = self.where
    r = self.call(fn, args, kwargs, e)
    self.where = saved
    return r

  def e_Subscript(self, e, fr):
    o = self.ev(e.value, fr)
    if isinstance(o, (ClassVal, type)) or (isinstance(o, (ExtRef, FuncVal))):
      m = self.spec.ext_subscript(self, o, e, fr)
      if m is not UNDEF:
        return m
      return o  # Generic[...] parameters are erased
    if isinstance(o, Builtin) and getattr(o, 'generic', False):
      return o
    return self.getitem(o, self.ev(e.slice, fr))

  def e_Slice(self, e, fr):
    return slice(*[None if x is None else self.ev(x, fr)
                   for x in (e.lower, e.upper, e.step)])

  def getitem(self, o, k):
    from pyvc import builtins_model
    if isinstance(o, InstDict) and isinstance(k, str):
      if k not in o.obj.fields:
        self.throw(KeyError, k)
      r = o.obj.fields[k]
      if isinstance(r, Poison):
        raise Unsupported(f'field {k} not tracked across loop')
      self.spec.on_read(self, o.obj, k)
      return r
    if isinstance(o, ClassDict) and isinstance(k, str):
      if k in o.cls.attrs:
        return o.cls.attrs[k]
      slots = o.cls.attrs.get('__slots__')
      slots = slots.items if isinstance(slots, ListObj) else slots
      if isinstance(slots, (list, tuple)) and k in slots:
        return SlotDesc(k)
      self.throw(KeyError, k)
    if isinstance(o, Obj):
      m, _ = self.class_attr(o.cls, '__getitem__')
      if m is not UNDEF:
        return self.call(Bound(m, o), [k], {})
      r = self.spec.obj_getitem(self, o, k)
      if r is not UNDEF:
        return r
    if isinstance(o, SetDict):
      kt = self.keyterm(k)
      if getattr(o, 'strict', False):
        if not self.branch(o.dom[kt]):
          self.throw(KeyError, k)
        return OwnedSet(o, kt)
      if self.entails(o.dom[kt], 1000, True) != 'unsat':
        empty = z3.K(Val, z3.BoolVal(False))
        o.mem = self.define('sd_mem', z3.Store(o.mem, kt, z3.If(o.dom[kt], o.mem[kt], empty)))
        o.dom = self.define('sd_dom', z3.Store(o.dom, kt, z3.BoolVal(True)))
        self.wr(o, '<content>')
      return OwnedSet(o, kt)
    if isinstance(o, SVal):
      r = self.spec.opaque_getitem(self, o, k)
      if r is not UNDEF:
        return r
      o = self.unopaque(o)
    return builtins_model.getitem(self, o, k)

  def setitem(self, o, k, v):
    if isinstance(o, InstDict) and isinstance(k, str):
      self.raw_setattr(o.obj, k, v)
      return
    if isinstance(o, Obj):
      m, _ = self.class_attr(o.cls, '__setitem__')
      if m is not UNDEF:
        self.call(Bound(m, o), [k, v], {})
        return
    if isinstance(o, SVal):
      r = self.spec.opaque_setitem(self, o, k, v)
      if r is not UNDEF:
        return
    if isinstance(o, SetDict) and isinstance(v, (SetObj, OwnedSet)):
      if getattr(v, 'moved', False) or isinstance(v, OwnedSet):
        raise Unsupported('a set stored twice')
      v.moved = True  # the set lives in the dict from here on
      kt = self.keyterm(k)
      o.mem = self.define('sd_mem', z3.Store(o.mem, kt, self.set_arr(v)))
      o.dom = self.define('sd_dom', z3.Store(o.dom, kt, z3.BoolVal(True)))
      self.wr(o, '<content>')
      return
    if isinstance(o, DictObj):
      self.dict_set(o, k, v)
      return
    if isinstance(o, ListObj) and o.items is not None and isinstance(k, int):
      if not -len(o.items) <= k < len(o.items):
        self.throw(IndexError)
      o.items[k] = v
      self.wr(o, '<content>')
      return
    raise Unsupported(f'setitem on {o!r}')

  def e_JoinedStr(self, e, fr):
    parts = []
    for p in e.values:
      if isinstance(p, ast.Constant):
        parts.append(p.value)
      else:
        v = self.ev(p.value, fr)
        parts.append(self.spec_format(v, p, fr))
    if all(isinstance(p, str) for p in parts):
      return ''.join(parts)
    if any(isinstance(p, Undef) for p in parts):
      return SStr(self.fresh('fstr', z3.StringSort()))
    r = self.spec.concat(self, parts)
    if r is not UNDEF:
      return r
    ts = [self.str_t(p) for p in parts]
    return SStr(z3.Concat(*ts)) if len(ts) > 1 else parts[0]

  def spec_format(self, v, p, fr):
    from pyvc import builtins_model
    r = self.spec.format_value(self, v, p)
    if r is not UNDEF:
      return r
    if p.conversion == -1 and p.format_spec is None:
      if isinstance(v, (str, SStr)):
        return v
      if isinstance(v, (int, float, bool)) or v is None:
        return str(v)
    return UNDEF

  def e_FormattedValue(self, e, fr):
    return self.e_JoinedStr(ast.JoinedStr([e]), fr)

  def e_Yield(self, e, fr):
    v = None if e.value is None else self.ev(e.value, fr)
    if fr.yield_cb is None:
      raise Unsupported('yield outside of a driven generator')
    return fr.yield_cb(v)

  def e_YieldFrom(self, e, fr):
    it = self.ev(e.value, fr)
    self.iterate(it, lambda x: fr.yield_cb(x), e, fr)
    return None

  def e_Starred(self, e, fr):
    raise Unsupported('starred')

  def pure_comp(self, e, fr, rule):
    """Exact rule for a pure comprehension over a symbolic source."""
    from pyvc import pure
    if not pure.enabled(self) or len(e.generators) != 1:
      return UNDEF
    f = self.comp_frame(fr)
    v, src = pure.comp_source(self, e, f)
    if not isinstance(src, tuple):
      return _Source(v)
    r = pure.attempt(self, lambda: rule(self, e, f, src))
    return _Source(v, src) if r is UNDEF else r

  def e_ListComp(self, e, fr):
    from pyvc import pure
    r = self.pure_comp(e, fr, pure.comp_list)
    if r is not UNDEF and not isinstance(r, _Source):
      return self.new_list_sym(r)
    self.given_source = r
    res = self.new_list([])
    res.is_acc = True

    def push(f):
      v = self.ev(e.elt, f)
      from pyvc import builtins_model
      builtins_model.list_append(self, res, v)

    self.run_comp(e.generators, 0, self.comp_frame(fr), push, e, res)
    return res

  def e_SetComp(self, e, fr):
    from pyvc import pure
    r = self.pure_comp(e, fr, pure.comp_set)
    if r is not UNDEF and not isinstance(r, _Source):
      return r
    self.given_source = r
    res = self.new_set()
    self.run_comp(e.generators, 0, self.comp_frame(fr),
                  lambda f: self.set_add(res, self.ev(e.elt, f)), e, res)
    return res

  def e_DictComp(self, e, fr):
    from pyvc import pure
    r = self.pure_comp(e, fr, pure.comp_dict)
    if r is not UNDEF and not isinstance(r, _Source):
      return r
    self.given_source = r
    res = self.new_dict()

    def push(f):
      k = self.ev(e.key, f)
      self.dict_set(res, k, self.ev(e.value, f))

    self.run_comp(e.generators, 0, self.comp_frame(fr), push, e, res)
    return res

  def e_GeneratorExp(self, e, fr):
    g = GenExp(e, fr)
    g.frame_copy = lambda: self.comp_frame(fr)
    return g

  def comp_frame(self, fr):
    f = Frame(fr.module, fr, fr.fn, fr.cls)
    f.cls = None
    f.birth = self.tick()
    f.yield_cb = None
    return f

  def run_comp(self, gens, i, f, push, node=None, acc=None):
    if i == len(gens):
      push(f)
      return
    g = gens[i]
    given = getattr(self, 'given_source', UNDEF)
    if i == 0 and isinstance(given, _Source):
      self.given_source = UNDEF
      it = given
    else:
      it = self.ev(g.iter, f if i else (f.closure or f))

    def body(x):
      self.assign(g.target, x, f)
      for c in g.ifs:
        if not self.test(self.ev(c, f)):
          return
      self.run_comp(gens, i + 1, f, push, node, acc)

    self.iterate(it, body, node if node is not None else g.iter, f, acc)


class _GenBreak(Exception):

  def __init__(self, gen):
    self.gen = gen


class InstDict:
  """The __dict__ of an instance: item access and update."""

  def __init__(self, obj):
    self.obj = obj


class ClassDict:
  def __init__(self, cls):
    self.cls = cls


class SlotDesc:
  def __init__(self, name):
    self.name = name


class _SymTail:
  """A symbolic tail inside an otherwise concrete tuple (zip(x, *args))."""

  def __init__(self, seq):
    self.seq = seq


class _Source:
  """An already evaluated comprehension source."""

  def __init__(self, v, src=None):
    self.v = v
    self.src = src


class _StarSeq:
  """`*args` argument of unknown length."""

  def __init__(self, seq):
    self.seq = seq


def _is_generator(node):
  for st in node.body:
    for sub in _walk_same_function(st):
      if isinstance(sub, (ast.Yield, ast.YieldFrom)):
        return True
  return False


def _walk_same_function(node):
  yield node
  if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
    return
  for c in ast.iter_child_nodes(node):
    yield from _walk_same_function(c)
