"""Contracts for koladata.expr.tracing_mode (P04: scoping, P05: dispatch)."""

import ast

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm

MOD = 'koladata.expr.tracing_mode'
FILE = 'py/koladata/expr/tracing_mode.py'

Ctx = z3.IntSort()
WrapKey = z3.Function('wrapkey', Val, Val)
UnwrapKey = z3.Function('unwrapkey', Val, Val)
UNSET = Val.ref(z3.IntVal(-77))

TRUSTED = {p: ['contextvars.ContextVar: get/set/reset act on the current context only; '
               'reset restores the value the token was issued for',
               'contextlib.contextmanager: enter runs to the yield, exit resumes there '
               '(normally or by raising the exception of the block)',
               'z3 and the VC generator pyvc/']
           for p in ('P04', 'P05')}
ASSUMPTIONS = {
    'P04': ['contexts are those of the contextvars module (threads and asyncio tasks)'],
    'P05': ['names in __all__ are not the dunder names the dispatcher defines itself',
            'identity of equal ints/strings is not distinguished'],
}


class TracingSpec(Spec):
  """Ghost context-variable store: var x context -> value."""

  def __init__(self):
    super().__init__()
    self.ctx = z3.IntVal(0)
    self.models['contextvars.ContextVar'] = Builtin('contextvars.ContextVar', self.new_var)
    self.models['threading.local'] = Builtin(
        'threading.local', lambda it, a, k: it.new_obj(ExtRef('threading.local')))
    self.seq = None     # enumeration of __all__
    self.mod = None
    self.attr = z3.Function('mod_attr', Val, Val)
    self.configs = None
    self._fld = {}
    self.symbolic_store = True

  # -- ContextVar --
  def new_var(self, it, a, k):
    if a[1:]:
      it.throw(TypeError, 'ContextVar takes one positional argument')
    o = it.new_obj(ExtRef('contextvars.ContextVar'))
    vs = it.ghost.setdefault('vars', [])
    o.store = (z3.Array(f'ctxvar_{len(vs)}', Ctx, Val)
               if self.symbolic_store else z3.K(Ctx, UNSET))
    o.default = k.get('default', UNDEF)
    if self.symbolic_store:
      c = z3.Int('c')
      b = lambda t: z3.Or(Val.is_bool(t), t == UNSET)
      it.assume(z3.ForAll([c], b(o.store[c]), patterns=[o.store[c]]))
    vs.append(o)
    return o

  def var_get(self, it, o, a, k):
    t = o.store[self.ctx]
    if not it.branch(t == UNSET):
      return it.fv(t)
    if a:
      return a[0]
    if o.default is UNDEF:
      it.throw(LookupError)
    return o.default

  def var_set(self, it, o, a, k):
    tok = it.new_obj(ExtRef('contextvars.Token'))
    tok.old = o.store[self.ctx]
    tok.var = o
    tok.used = False
    tok.ctx = self.ctx
    tok.fields['var'] = o
    it.assume(it.tv(a[0]) != UNSET)
    o.store = z3.Store(o.store, self.ctx, it.tv(a[0]))
    it.wr(o, '<content>')
    return tok

  def var_reset(self, it, o, a, k):
    tok = a[0]
    if not hasattr(tok, 'old'):
      it.throw(TypeError)
    if tok.used:
      it.throw(RuntimeError, 'token already used')
    if tok.var is not o:
      it.throw(ValueError, 'token of another variable')
    if not it.branch(tok.ctx == self.ctx):
      it.throw(ValueError, 'token of another context')
    tok.used = True
    o.store = z3.Store(o.store, self.ctx, tok.old)
    it.wr(o, '<content>')
    return None

  def obj_attr(self, it, o, name):
    if hasattr(o, 'store'):
      if name == 'get':
        return Builtin('ContextVar.get', lambda i, a, k: self.var_get(i, o, a, k))
      if name == 'set':
        return Builtin('ContextVar.set', lambda i, a, k: self.var_set(i, o, a, k))
      if name == 'reset':
        return Builtin('ContextVar.reset', lambda i, a, k: self.var_reset(i, o, a, k))
    if hasattr(o, 'old') and name == 'old_value':
      return it.fv(o.old)
    if o is self.mod:
      if name == '__all__':
        return self.all_obj
      if name == '__name__':
        return SStr(z3.String('mod_name'))
      if name == '__doc__':
        return SVal(z3.Const('mod_doc', Val))
    return UNDEF

  # -- the module being prepared --
  def iter_opaque(self, it, v):
    if self.seq is not None and v is self.all_obj:
      n, at, pos = self.seq
      return (n, lambda i: SStr(Val.s(at(i))), v)
    return UNDEF

  def dyn_getattr(self, it, o, name, default):
    if o is self.mod:
      return SVal(self.attr(it.tv(name)))
    return UNDEF

  def opaque_attr(self, it, v, name, default):
    if name in ('__name__', '__doc__', '__module__', '__qualname__'):
      return SStr(it.fresh('s', z3.StringSort()))
    return UNDEF

  def fld(self, n):
    if n not in self._fld:
      self._fld[n] = z3.Function('dfld_' + n, Val, Val)
    return self._fld[n]

  Tag = z3.Function('dclass', Val, z3.IntSort())

  def dyn_setattr(self, it, o, name, v):
    if isinstance(o, ClassVal):
      d = self.dyn(it, o)
      self.seal(it, v)
      it.dict_set(d, name, v)
      return None
    return UNDEF

  def dyn(self, it, cls):
    if not hasattr(cls, 'dyn'):
      cls.dyn = it.new_dict_sym('dyn', wf=False)
      cls.dyn.dom = z3.K(Val, z3.BoolVal(False))
      cls.dyn.val = z3.K(Val, NONE)
      cls.dyn.card = z3.IntVal(0)
      it.ghost.setdefault('dyn', []).append(cls.dyn)
    return cls.dyn

  def class_hook(self, it, cls):
    if cls.closure is not None:  # a class created inside a function under proof
      self.dyn(it, cls)

  def seal(self, it, v):
    """A stored object is represented by functions of its reference from now on."""
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
      t = it.tv(v)
      it.assume(self.Tag(t) == it.class_tag(v.cls))
      for n, x in v.fields.items():
        it.assume(self.fld(n)(t) == it.tv(x))
      it.ghost.setdefault('sealed', set()).add(v.ref)

  def on_write(self, it, o, name, val):
    if getattr(o, 'ref', None) in it.ghost.get('sealed', ()):
      raise Unsupported('write to a descriptor after it was installed')

  def keyrep(self, it, k):
    if isinstance(k.cls, ClassVal) and k.cls is self.wrapper(it) and len(k.fields) == 1:
      (v,) = k.fields.values()
      return self.key(it.tv(v))
    return UNDEF

  def wrapper(self, it):
    """The class of the keys of a config dict (found by running configure_tracing)."""
    return it.ghost.get('wrapper')

  def key(self, t):
    return WrapKey(t)

  # -- loops --
  def descriptor_classes(self, it):
    return [c for c in it.prog.module(MOD).tree.body if isinstance(c, ast.ClassDef)
            and any(isinstance(f, ast.FunctionDef) and f.name == '__get__' for f in c.body)]

  def fields_of_module(self, it):
    out = []
    for node in [x for c in self.descriptor_classes(it) for x in ast.walk(c)]:
      if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and (
          node.value.id == 'self') and isinstance(node.ctx, ast.Store):
        if node.attr not in out and not node.attr.startswith('__'):
          out.append(node.attr)
    return out

  def loop_invariants(self, it, L):
    if self.seq is None:
      return []
    n_, at, pos = self.seq
    cfg = self.configs
    n = z3.Const('n', Val)
    i = L.i
    if L.kind == 'for' and L.seqval is self.all_obj:
      inpre = lambda x: z3.And(self.inall(x), pos(x) < i)
    elif L.kind == 'for' and hasattr(L.seqval, 'keys'):
      ks = L.seqval.keys
      inpre = lambda x: z3.And(self.inall(x), 0 <= ks.idx(x), ks.idx(x) < i, ks.at(ks.idx(x)) == x)
    else:
      inpre = None
    out = []
    ds = []
    f = L.frame
    while f is not None:
      for nm, v in f.locals.items():
        if isinstance(v, DictObj) and v is not cfg and not (
            v.items is None and v.dom.eq(cfg.dom)):
          ds.append((nm, v))
      f = f.closure
    for j, v in enumerate(it.ghost.get('dyn', [])):
      ds.append((f'class attributes #{j}', v))
    if L.acc is not None and isinstance(L.acc, DictObj):
      ds.append(('comprehension', L.acc))
    reg = lambda x: cfg.dom[self.key(self.attr(x))]
    cval = lambda x: cfg.val[self.key(self.attr(x))]
    if inpre is not None:
      out.append(('names seen so far are registered', FA([n], z3.Implies(
          inpre(n), reg(n)), patterns=[pos(n)])))
    for nm, d in ds:
      if d.items is not None:
        it.dict_promote(d)
      if inpre is not None:
        out.append((f'{nm}: holds exactly the names seen', FA(
            [n], d.dom[n] == inpre(n), patterns=[d.dom[n]])))
      out.append((f'{nm}: only public registered names', FA(
          [n], z3.Implies(d.dom[n], z3.And(self.inall(n), reg(n))), patterns=[d.dom[n]])))
      forms = [('eager', lambda x: self.attr(x)), ('tracing', cval), ('name', lambda x: x),
               ('pair', lambda x: Val.tup(z3.Concat(z3.Unit(self.attr(x)), z3.Unit(cval(x)))))]
      for fn_, g in forms if not nm.startswith('class attributes') else ():
        out.append((f'{nm}: maps to {fn_}', FA([n], z3.Implies(
            d.dom[n], d.val[n] == g(n)), patterns=[d.val[n]])))
      if nm.startswith('class attributes'):
        for f_ in self.fields_of_module(it):
          for fn_, g in forms[:3]:
            out.append((f'{nm}: .{f_} is {fn_}', FA([n], z3.Implies(
                d.dom[n], self.fld(f_)(d.val[n]) == g(n)), patterns=[d.val[n]])))
        for cn in [c.name for c in self.descriptor_classes(it)]:
          tag = it.class_tag(it.modname(it.prog.module(MOD), cn))
          out.append((f'{nm}: instances of {cn}', FA([n], z3.Implies(
              d.dom[n], self.Tag(d.val[n]) == tag), patterns=[d.val[n]])))
    return out

  def inall(self, x):
    n_, at, pos = self.seq
    return z3.And(Val.is_str(x), 0 <= pos(x), pos(x) < n_, at(pos(x)) == x)


def is_on(it, sp):
  """is_tracing_enabled() of the real code, in the current ghost context."""
  m = it.prog.module(MOD)
  r = it.call(it.modname(m, 'is_tracing_enabled'), [], {})
  return it.eq(r, True)


# -- P04 ---------------------------------------------------------------------


def h_scope(sp):
  def harness(it):
    m = it.prog.module(MOD)
    a, b = z3.Ints('ctx_a ctx_b')
    it.assume(a != b)
    sp.ctx = a
    before = is_on(it, sp)
    e = z3.Bool('enable')
    arg = [SBool(e)] if it.choose('explicit argument') else []
    want = e if arg else True
    mode = it.choose('block raises')
    deliver = it.new_obj(ValueError) if it.choose('exception kind') else it.new_obj(KeyboardInterrupt)
    messy = it.choose('block changes the mode itself')
    seen = []
    sp.ctx = b
    before_b = is_on(it, sp)
    sp.ctx = a
    cm = it.call(it.modname(m, 'enable_tracing'), arg, {})

    def body(v):
      seen.append(1)
      it.oblige('P04: the requested mode is in force inside the block',
                it.eq(SBool(_b(is_on(it, sp))), SBool(_b(want))))
      sp.ctx = b
      it.oblige('P04: other contexts do not observe the change',
                it.eq(SBool(_b(is_on(it, sp))), SBool(_b(before_b))))
      sp.ctx = a
      if messy:
        for v_ in it.ghost.get('vars', []):
          v_.store = z3.Store(v_.store, a, Val.bool(it.fresh('junk', z3.BoolSort())))
      if mode:
        raise PyRaise(deliver)

    exc = None
    try:
      it.with_cm(cm, body)
    except PyRaise as x:
      exc = x.exc
    it.cover('scope')
    it.oblige('P04: the block runs exactly once', len(seen) == 1)
    it.oblige('P04: the exception of the block, and only it, propagates',
              exc is (deliver if mode else None))
    it.oblige('P04: the mode in force before is restored',
              it.eq(SBool(_b(is_on(it, sp))), SBool(_b(before))))
    sp.ctx = b
    it.oblige('P04: other contexts keep their mode',
              it.eq(SBool(_b(is_on(it, sp))), SBool(_b(before_b))))
  return harness


def _b(x):
  return z3.BoolVal(x) if isinstance(x, bool) else x


def h_nested(sp):
  """Nesting, implementation-independent start state (nothing set yet)."""
  sp.symbolic_store = False

  def harness(it):
    m = it.prog.module(MOD)
    et = it.modname(m, 'enable_tracing')
    it.oblige('P04: tracing is off by default', z3.Not(_b(is_on(it, sp))))
    modes = [z3.Bool(f'm{j}') for j in range(3)]
    fail = it.choose('innermost raises')

    def nest(j):
      def body(v):
        it.oblige(f'P04: nested: mode of level {j}', _b(is_on(it, sp)) == modes[j])
        if j + 1 < len(modes):
          try:
            it.with_cm(it.call(et, [SBool(modes[j + 1])], {}), nest(j + 1))
          except PyRaise as x:
            it.oblige(f'P04: nested: mode of level {j} after an inner failure',
                      _b(is_on(it, sp)) == modes[j])
            if j > 0:
              raise
        elif fail:
          raise PyRaise(it.new_obj(ValueError))
        it.oblige(f'P04: nested: mode of level {j} restored', _b(is_on(it, sp)) == modes[j])
      return body

    it.with_cm(it.call(et, [SBool(modes[0])], {}), nest(0))
    it.cover('nested')
    it.oblige('P04: nested: off again at the end', z3.Not(_b(is_on(it, sp))))
  return harness


# -- P05 ---------------------------------------------------------------------


def find_wrapper(it, sp):
  """Runs configure_tracing on a ghost dict to learn the key class."""
  m = it.prog.module(MOD)
  seen = []

  class D:
    pass

  d = it.new_dict()
  try:
    old = sp.keyrep
    sp.keyrep = lambda it_, k: (seen.append(k.cls), it_.tv(k))[1]
    it.call(it.modname(m, 'configure_tracing'), [d, SVal(z3.Const('probe', Val)), None], {})
  finally:
    sp.keyrep = old
  if not seen:
    raise Unsupported('config keys are not instances of a key class')
  it.ghost['wrapper'] = seen[0]
  t = z3.Const('t', Val)
  it.assume(FA([t], UnwrapKey(WrapKey(t)) == t, patterns=[WrapKey(t)]))
  return seen[0]


def wrap(it, sp, v):
  return it.call(sp.wrapper(it), [v], {})


def h_keys(sp):
  """Keys of a config compare and hash by identity of the object."""
  def harness(it):
    find_wrapper(it, sp)
    a, b = z3.Consts('a b', Val)
    it.assume(Val.is_ref(a), )
    it.assume(Val.is_ref(b))
    wa, wb = wrap(it, sp, SVal(a)), wrap(it, sp, SVal(b))
    it.oblige('P05: config keys are equal exactly for the same object',
              _b(it.eq(wa, wb)) == (a == b))
    h = bm.BUILTINS['hash'].fn
    ha, hb = h(it, [wa], {}), h(it, [wb], {})
    it.oblige('P05: equal keys have equal hashes', z3.Implies(a == b, it.int_t(ha) == it.int_t(hb)))
    it.cover('keys')
    it.oblige('P05: a key never equals a foreign object',
              z3.Not(_b(it.eq(wa, 7))))
  return harness


def sym_configs(it, sp):
  d = it.new_dict_sym('configs')
  k = z3.Const('k', Val)
  # Keys of a config dict are the wrappers of objects.
  it.assume(FA([k], z3.Implies(d.dom[k], k == sp.key(UnwrapKey(k))), patterns=[d.dom[k]]))
  sp.configs = d
  return d


def h_configure(sp):
  def harness(it):
    find_wrapper(it, sp)
    m = it.prog.module(MOD)
    d = sym_configs(it, sp)
    d0 = d.snapshot()
    eager, tr = z3.Consts('eager tracing', Val)
    which = 0 if it.choose('configure') else 1 if it.choose('same') else 2
    fn = ['configure_tracing', 'same_when_tracing', 'eager_only'][which]
    args = [d, SVal(eager)] + ([SVal(tr)] if which == 0 else [])
    want = [tr, eager, NONE][which]
    exc = r = None
    try:
      r = it.call(it.modname(m, fn), args, {})
    except PyRaise as x:
      exc = x.exc
    it.cover(fn)
    key = sp.key(eager)
    conflict = z3.And(d0.dom[key], d0.val[key] != want)
    k = z3.Const('k', Val)
    if exc is not None:
      it.oblige(f'P05: {fn}: raises ValueError only for a conflicting registration',
                z3.And(_b(it.exc_matches(exc, ValueError)), conflict))
      it.oblige(f'P05: {fn}: a rejected registration changes nothing', z3.And(
          FA([k], d.dom[k] == d0.dom[k]), FA([k], z3.Implies(d0.dom[k], d.val[k] == d0.val[k]))))
      return
    it.oblige(f'P05: {fn}: conflicting registration is rejected', z3.Not(conflict))
    it.oblige(f'P05: {fn}: returns the eager object', it.tv(r) == eager)
    it.oblige(f'P05: {fn}: records the tracing version', z3.And(d.dom[key], d.val[key] == want))
    it.oblige(f'P05: {fn}: other registrations unchanged', FA([k], z3.Implies(
        k != key, z3.And(d.dom[k] == d0.dom[k], z3.Implies(d0.dom[k], d.val[k] == d0.val[k])))))
  return harness


def h_dispatch(sp):
  def harness(it):
    find_wrapper(it, sp)
    m = it.prog.module(MOD)
    n_ = z3.Int('n_names')
    at = z3.Function('all_at', z3.IntSort(), Val)
    pos = z3.Function('all_pos', Val, z3.IntSort())
    i = z3.Int('i')
    it.assume(n_ >= 0)
    it.assume(FA([i], z3.Implies(z3.And(0 <= i, i < n_), z3.And(
        Val.is_str(at(i)), 0 <= pos(at(i)), pos(at(i)) <= i, at(pos(at(i))) == at(i))),
                 patterns=[at(i)]))
    sp.seq = (n_, at, pos)
    sp.mod = it.new_obj(ExtRef('types.ModuleType'))
    sp.all_obj = it.new_obj(ExtRef('list'))
    cfg = sym_configs(it, sp)
    name = z3.Const('name', Val)
    it.assume(Val.is_str(name))
    exc = disp = None
    try:
      disp = it.call(it.modname(m, 'prepare_module_for_tracing'), [sp.mod, cfg], {})
    except PyRaise as x:
      exc = x.exc
    q = z3.Const('q', Val)
    reg = lambda x: cfg.dom[sp.key(sp.attr(x))]
    if exc is not None:
      it.cover('rejected')
      it.oblige('P05: prepare: raises only ValueError', it.exc_matches(exc, ValueError))
      it.oblige('P05: prepare: raises only if some public name is not registered',
                z3.Exists([q], z3.And(sp.inall(q), z3.Not(reg(q)))))
      return
    it.oblige('P05: prepare: a public name without registration is rejected',
              z3.Implies(sp.inall(name), reg(name)))
    if not (isinstance(disp, Obj) and isinstance(disp.cls, ClassVal)):
      raise Unsupported('dispatcher is not an instance of a class of the module')
    d = sp.dyn(it, disp.cls)
    if not it.branch(sp.inall(name)):
      it.cover('unlisted')
      it.oblige('P05: names that are not public are not dispatched', z3.Not(d.dom[name]))
      return
    it.cover('prepared')
    it.oblige('P05: every public name is dispatched', d.dom[name])
    t = d.val[name]
    cls = None
    for cn in [c.name for c in sp.descriptor_classes(it)]:
      c = it.modname(it.prog.module(MOD), cn)
      if it.entails(sp.Tag(t) == it.class_tag(c)) == 'unsat':
        cls = c
    if cls is None:
      raise Unsupported('class of the descriptors not determined')
    desc = it.new_obj(cls)
    for f in sp.fields_of_module(it):
      desc.fields[f] = SVal(sp.fld(f)(t))
    it.ghost.setdefault('sealed', set()).add(desc.ref)
    get, _ = it.class_attr(cls, '__get__')
    set_, _ = it.class_attr(cls, '__set__')
    on = is_on(it, sp)
    eager, tracing = sp.attr(name), cfg.val[sp.key(sp.attr(name))]
    exc = r = None
    try:
      r = it.call(Bound(get, desc), [disp, disp.cls], {})
    except PyRaise as x:
      exc = x.exc
    it.cover('access')
    if exc is not None:
      it.oblige('P05: access fails only with AttributeError', it.exc_matches(exc, AttributeError))
      it.oblige('P05: access fails only while tracing an eager-only name',
                z3.And(_b(on), tracing == NONE))
    else:
      it.oblige('P05: eager mode yields the eager object', z3.Implies(z3.Not(_b(on)), it.tv(r) == eager))
      it.oblige('P05: tracing mode yields the registered tracing version (falsy ones included)',
                z3.Implies(_b(on), z3.And(tracing != NONE, it.tv(r) == tracing)))
    if set_ is UNDEF:
      it.oblige('P05: public names cannot be assigned', False)
      return
    exc = None
    try:
      it.call(Bound(set_, desc), [disp, SVal(z3.Const('newval', Val))], {})
    except PyRaise as x:
      exc = x.exc
    it.oblige('P05: public names cannot be assigned', exc is not None and it.exc_matches(exc, AttributeError))
  return harness


def proofs(prop):
  if prop == 'P04':
    ps = {'scope': h_scope, 'nested': h_nested}
  else:
    ps = {'config_keys': h_keys, 'configure': h_configure, 'dispatch': h_dispatch}
  for n, h in ps.items():
    yield n, TracingSpec, h
