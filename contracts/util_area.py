"""Contracts for small utilities: P11 file_io, P12 kd_functools, P13/P14 dataclasses_util."""

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm

FS = 'koladata.file_io.fs_implementation'
FT = 'koladata.util.kd_functools'
DC = 'koladata.base.py_conversions.dataclasses_util'

TRUSTED = {
    'P11': ['os.rename/os.replace/os.remove/os.makedirs/os.path.*: POSIX semantics on a map from '
            'paths to entries; glob.glob and open are passed through'],
    'P12': ['attribute access, callable() and id() of the wrapped functions are pure'],
    'P13': ['typing.get_origin/get_args/get_type_hints, dataclasses.is_dataclass: pure functions of the type'],
    'P14': ['dataclasses.make_dataclass/asdict/fields/is_dataclass'],
}
ASSUMPTIONS = {
    'P11': ['no other process changes the destination between the check and the rename (the code documents this)',
            'a dangling symbolic link does not count as an existing destination'],
    'P12': ['the chain of wrapped functions reaches finitely many objects'],
    'P13': ['the cache argument holds results of earlier calls only'],
    'P14': [],
}


def _b(x):
  return z3.BoolVal(x) if isinstance(x, bool) else x


# -- P11 -----------------------------------------------------------------------

IsDirNode = z3.Function('node_is_dir', Val, z3.BoolSort())
Glob = z3.Function('glob_result', Val, Val)
OpenF = z3.Function('open_result', Val, Val, Val)


class FsSpec(Spec):

  def __init__(self):
    super().__init__()
    self.fs = None
    B = lambda n, f: self.models.__setitem__(n, Builtin(n, f))
    B('os.path.exists', lambda it, a, k: SBool(self.fs[it.tv(a[0])] != NONE))
    B('os.path.lexists', lambda it, a, k: SBool(self.fs[it.tv(a[0])] != NONE))
    B('os.path.isdir', lambda it, a, k: SBool(z3.And(self.node(it, a[0]) != NONE, IsDirNode(self.node(it, a[0])))))
    B('os.path.isfile', lambda it, a, k: SBool(z3.And(self.node(it, a[0]) != NONE, z3.Not(IsDirNode(self.node(it, a[0]))))))
    B('os.access', lambda it, a, k: SBool(self.fs[it.tv(a[0])] != NONE))
    for n in ('os.rename', 'os.replace'):
      B(n, self.move)
    for n in ('os.remove', 'os.unlink'):
      B(n, self.remove)
    B('os.makedirs', self.makedirs)
    B('glob.glob', lambda it, a, k: SVal(Glob(it.tv(a[0]))))
    B('builtins.open', self.open_)
    B('io.open', self.open_)
    self.saved_open = bm.BUILTINS.get('open')
    bm.BUILTINS['open'] = Builtin('open', self.open_)

  def node(self, it, p):
    return self.fs[it.tv(p)]

  def open_(self, it, a, k):
    if len(a) + len(k) != 2:
      raise Unsupported('open with other arguments')
    mode = a[1] if len(a) > 1 else k['mode']
    return SVal(OpenF(it.tv(a[0]), it.tv(mode)))

  def move(self, it, a, k):
    o, n = it.tv(a[0]), it.tv(a[1])
    src, dst = self.fs[o], self.fs[n]
    if not it.branch(src != NONE):
      it.throw(FileNotFoundError)
    if it.branch(z3.And(dst != NONE, IsDirNode(dst) != IsDirNode(src))):
      it.throw(OSError)
    if it.branch(z3.And(dst != NONE, IsDirNode(dst))) and it.choose('destination directory not empty'):
      it.throw(OSError)
    self.fs = z3.If(o == n, self.fs, z3.Store(z3.Store(self.fs, o, NONE), n, src))
    return None

  def remove(self, it, a, k):
    p = it.tv(a[0])
    if not it.branch(self.fs[p] != NONE):
      it.throw(FileNotFoundError)
    if it.branch(IsDirNode(self.fs[p])):
      it.throw(IsADirectoryError)
    self.fs = z3.Store(self.fs, p, NONE)

  def makedirs(self, it, a, k):
    p = it.tv(a[0])
    ok = k.get('exist_ok', a[2] if len(a) > 2 else False)
    if it.branch(self.fs[p] != NONE):
      if not it.test(ok) or it.branch(z3.Not(IsDirNode(self.fs[p]))):
        it.throw(FileExistsError)
      return None
    d = it.fresh('newdir', Val)
    it.assume(z3.And(d != NONE, IsDirNode(d)))
    self.fs = z3.Store(self.fs, p, d)
    return None


def fs_setup(it, sp):
  sp.fs = z3.Array('fs', Val, Val)
  cls = it.modname(it.prog.module(FS), 'FileSystemInteraction')
  return it.call(cls, [], {})


def fs_call(it, o, name, args, kwargs=None):
  try:
    return it.call(it.getattr(o, name), args, kwargs or {}), None
  except PyRaise as x:
    return None, x.exc


def h_rename(sp):
  def harness(it):
    o = fs_setup(it, sp)
    old, new = z3.Strings('old new')
    fs0 = sp.fs
    over = z3.Bool('overwrite')
    args = [SStr(old), SStr(new)]
    explicit = it.choose('overwrite given')
    if explicit:
      args.append(SBool(over))
    else:
      it.assume(z3.Not(over))
    r, exc = fs_call(it, o, 'rename', args)
    it.cover('rename')
    to, tn = Val.str(old), Val.str(new)
    p = z3.Const('p', Val)
    occupied = fs0[tn] != NONE
    if exc is not None:
      it.oblige('P11: rename: a failed rename changes nothing', FA([p], sp.fs[p] == fs0[p], patterns=[sp.fs[p]]))
      it.oblige('P11: rename: fails only for an occupied destination or an impossible move', z3.Or(
          z3.And(z3.Not(over), occupied), fs0[to] == NONE,
          z3.And(occupied, z3.Or(IsDirNode(fs0[tn]), IsDirNode(fs0[to])))))
      return
    it.oblige('P11: rename: without overwrite an existing destination is never replaced',
              z3.Implies(z3.Not(over), z3.Not(occupied)))
    it.oblige('P11: rename: the source existed', fs0[to] != NONE)
    it.oblige('P11: rename: the destination holds the source', sp.fs[tn] == fs0[to])
    it.oblige('P11: rename: the source name is gone', z3.Implies(to != tn, sp.fs[to] == NONE))
    it.oblige('P11: rename: nothing else changes', z3.Implies(z3.And(p != to, p != tn), sp.fs[p] == fs0[p]))
  return harness


def h_fsops(sp):
  def harness(it):
    o = fs_setup(it, sp)
    q = z3.String('path')
    t = Val.str(q)
    fs0 = sp.fs
    p = z3.Const('p', Val)
    same = lambda: z3.BoolVal(True) if sp.fs is fs0 else FA([p], sp.fs[p] == fs0[p], patterns=[sp.fs[p]])
    which = [n for n in ('exists', 'is_dir', 'remove', 'make_dirs', 'open', 'glob') if it.choose(n)][:1] or ['exists']
    n = which[0]
    args = [SStr(q)]
    mode = z3.Const('mode', Val)
    if n == 'open':
      args.append(SVal(mode))
    r, exc = fs_call(it, o, n, args)
    it.cover(n)
    if n == 'exists':
      it.oblige('P11: exists answers whether the path is occupied', exc is None and it.eq(r, SBool(fs0[t] != NONE)))
    elif n == 'is_dir':
      it.oblige('P11: is_dir answers whether the path is a directory',
                exc is None and it.eq(r, SBool(z3.And(fs0[t] != NONE, IsDirNode(fs0[t])))))
    elif n == 'open':
      it.oblige('P11: open opens the given path in the given mode', exc is None and it.tv(r) == OpenF(t, mode))
    elif n == 'glob':
      it.oblige('P11: glob returns the matches of the pattern', exc is None and it.tv(r) == Glob(t))
    elif n == 'remove':
      if exc is None:
        it.oblige('P11: remove removes exactly the path', z3.And(sp.fs[t] == NONE, z3.Implies(p != t, sp.fs[p] == fs0[p])))
      else:
        it.oblige('P11: remove fails only if there is no such file', z3.Or(fs0[t] == NONE, IsDirNode(fs0[t])))
      return
    elif n == 'make_dirs':
      if exc is None:
        it.oblige('P11: make_dirs leaves a directory and keeps an existing one', z3.And(
            sp.fs[t] != NONE, IsDirNode(sp.fs[t]), z3.Implies(fs0[t] != NONE, sp.fs[t] == fs0[t]),
            z3.Implies(p != t, sp.fs[p] == fs0[p])))
      else:
        it.oblige('P11: make_dirs fails only over a file', z3.And(fs0[t] != NONE, z3.Not(IsDirNode(fs0[t]))))
      return
    it.oblige(f'P11: {n} changes nothing', same())
  return harness


# -- P12 -----------------------------------------------------------------------

Has = z3.Function('has_wrapped', Val, z3.BoolSort())
Next = z3.Function('wrapped', Val, Val)
CallableF = z3.Function('is_callable', Val, z3.BoolSort())
Hashable = z3.Function('is_hashable', Val, z3.BoolSort())
EqClass = z3.Function('eq_class', Val, Val)
Reach = z3.Function('reach', Val, z3.BoolSort())
End = z3.Function('chain_end', Val, Val)
Rank = z3.Function('rank', Val, z3.IntSort())


def wraps(x):
  return z3.And(Has(x), CallableF(Next(x)))


def promote(it, s):
  if isinstance(s, SetObj):
    it.set_promote(s)
  else:
    it.dict_promote(s)


class UnwrapSpec(Spec):

  def __init__(self):
    super().__init__()
    self.fin = None
    self.on = False

  def opaque_attr(self, it, v, name, default):
    if name == '__wrapped__':
      if not it.branch(Has(v.t)):
        if default is not UNDEF:
          return default
        it.throw(AttributeError, name)
      return SVal(Next(v.t))
    return UNDEF

  def hasattr_(self, it, o, name):
    if isinstance(o, SVal) and name == '__wrapped__':
      return Has(o.t)
    return UNDEF

  def callable_(self, it, v):
    if isinstance(v, SVal):
      return CallableF(v.t)
    return UNDEF

  def opaque_key(self, it, v):
    if not it.branch(Hashable(v.t)):
      it.throw(TypeError, 'unhashable')
    return EqClass(v.t)

  def _cands(self, it, L):
    f = L.frame
    sets, vals = [], []
    while f is not None:
      for n, v in f.locals.items():
        if isinstance(v, (SetObj, DictObj)):
          sets.append((n, v))
        elif isinstance(v, SVal):
          vals.append((n, v))
      f = f.closure
    return sets, vals

  def loop_invariants(self, it, L):
    if not self.on:
      return []
    sets, vals = self._cands(it, L)
    out = []
    k = z3.Const('k', Val)
    for n, v in vals:
      out.append((f'{n} is on the chain', Reach(v.t)))
      out.append((f'{n} is an object', Val.is_ref(v.t)))
      out.append((f'{n} has the same end', End(v.t) == End(self.f0)))
    for n, s in sets:
      promote(it, s)
      obj = lambda k_: z3.If(Val.is_int(k_), Val.ref(Val.i(k_)), k_)
      out.append((f'{n} holds objects of the chain', FA([k], z3.Implies(
          s.dom[k], z3.And(z3.Or(Val.is_int(k), Val.is_ref(k)), Reach(obj(k)))), patterns=[s.dom[k]])))
      for m, v in vals:
        out.append((f'{n} holds objects before {m} (finite chain)', FA([k], z3.Implies(
            z3.And(self.fin, s.dom[k]), Rank(obj(k)) > Rank(v.t)), patterns=[s.dom[k]])))
      out.append((f'{n} has bounded size', z3.And(s.card >= 0)))
    return out

  def variant(self, it, L):
    if not self.on:
      return None
    sets, vals = self._cands(it, L)
    if not sets:
      return None
    n, s = sets[0]
    promote(it, s)
    k = z3.Const('k', Val)
    obj = lambda k_: z3.If(Val.is_int(k_), Val.ref(Val.i(k_)), k_)
    # Pigeonhole: finitely many objects are reachable (assumption of the property).
    it.assume(z3.Implies(z3.ForAll([k], z3.Implies(s.dom[k], Reach(obj(k)))), s.card <= z3.Int('N')))
    return z3.Int('N') + 1 - s.card


def h_unwrap(sp):
  def harness(it):
    f0 = z3.Const('fn', Val)
    x = z3.Const('x', Val)
    sp.f0 = f0
    sp.fin = z3.Bool('chain_is_finite')
    sp.on = True
    it.assume(Val.is_ref(f0))
    it.assume(FA([x], Val.is_ref(Next(x)), patterns=[Next(x)]))
    it.assume(Reach(f0))
    it.assume(FA([x], z3.Implies(z3.And(Reach(x), wraps(x)), Reach(Next(x))), patterns=[Next(x)]))
    it.assume(FA([x], End(x) == z3.If(wraps(x), End(Next(x)), x), patterns=[End(x)]))
    it.assume(FA([x], z3.Implies(z3.And(sp.fin, wraps(x), Reach(x)), z3.And(Rank(Next(x)) == Rank(x) - 1, Rank(x) > 0)),
                 patterns=[Next(x)]))
    m = it.prog.module(FT)
    exc = r = None
    try:
      r = it.call(it.modname(m, 'unwrap'), [SVal(f0)], {})
    except PyRaise as e:
      exc = e.exc
    it.cover('unwrap')
    it.oblige('P12: unwrap never fails', exc is None)
    if exc is None:
      rt = it.tv(r)
      it.oblige('P12: the result is on the chain', Reach(rt))
      it.oblige('P12: on a finite chain the result is the innermost function',
                z3.Implies(sp.fin, z3.And(z3.Not(wraps(rt)), rt == End(f0))))
  return harness


# -- P13 -----------------------------------------------------------------------

Origin = z3.Function('get_origin', Val, Val)
Args = z3.Function('get_args', Val, SeqVal)
IsDC = z3.Function('is_dataclass', Val, z3.BoolSort())
HintsOf = z3.Function('type_hints', Val, Val)
HintGet = z3.Function('hint_get', Val, Val, Val)
IsClass = z3.Function('is_class', Val, z3.BoolSort())
SubOf = z3.Function('issubclass', Val, z3.IntSort(), z3.BoolSort())


class TypeSpec(Spec):

  def __init__(self):
    super().__init__()
    B = lambda n, f: self.models.__setitem__(n, Builtin(n, f))
    B('typing.get_origin', lambda it, a, k: SVal(Origin(it.tv(a[0]))))
    B('typing.get_args', lambda it, a, k: STup(Args(it.tv(a[0]))))
    B('typing.get_type_hints', self.hints)
    B('dataclasses.is_dataclass', lambda it, a, k: SBool(IsDC(it.tv(a[0]))))

  def hints(self, it, a, k):
    if len(a) != 1 or k:
      raise Unsupported('get_type_hints with options')
    return SVal(HintsOf(it.tv(a[0])))

  def opaque_attr(self, it, v, name, default):
    if name == 'get' and z3.is_app(v.t):
      def get(it_, a, k):
        r = HintGet(v.t, it.tv(a[0]))
        if len(a) > 1:
          return SVal(z3.If(r == NONE, it.tv(a[1]), r))
        return SVal(r)
      return Builtin('hints.get', get)
    return UNDEF

  def opaque_getitem(self, it, o, k):
    r = HintGet(o.t, it.tv(k))
    if it.branch(r == NONE):
      it.throw(KeyError)
    return SVal(r)

  def opaque_contains(self, it, c, x):
    return HintGet(c.t, it.tv(x)) != NONE

  def isinstance_(self, it, v, c):
    if isinstance(v, SVal) and c is type:
      return IsClass(v.t)
    return UNDEF

  def issubclass_(self, it, a, b):
    if isinstance(a, SVal):
      return SubOf(a.t, it.class_tag(b))
    return UNDEF

  def obj_truth(self, it, o):
    return UNDEF

  def opaque_truth(self, it, v):
    return UNDEF


def ext_t(it, name):
  return it.tv(it.ext(name)) if not isinstance(it.ext(name), Builtin) else None


class Types:

  def __init__(self, it):
    self.Any = it.tv(it.ext('typing.Any'))
    self.Union = it.tv(it.ext('typing.Union'))
    self.SN = it.tv(it.ext('types.SimpleNamespace'))
    self.NoneT = it.tv(type(None))
    self.Tuple = it.tv(tuple)
    self.Ell = it.tv(Ellipsis)
    tag = lambda n: it.class_tag(it.ext(n))
    isa = lambda t, n: z3.And(Val.is_ref(t), IsA(Val.id(t), tag(n)))
    self.union = lambda t: z3.Or(Origin(t) == self.Union, isa(t, 'types.UnionType'))
    self.alias = lambda t: isa(t, 'types.GenericAlias')
    self.seq = lambda t: z3.And(IsClass(t), SubOf(t, tag('typing.Sequence')))
    self.mapping = lambda t: z3.And(IsClass(t), SubOf(t, tag('typing.Mapping')))

  def decay(self, t):
    """(raises ValueError, underlying type, is_optional)."""
    a = Args(t)
    two = z3.Length(a) == 2
    x, y = a[0], a[1]
    fx, fy = x == self.NoneT, y == self.NoneT
    good = z3.And(two, z3.Xor(fx, fy))
    u = z3.If(fx, y, x)
    u = z3.If(u == self.Any, NONE, u)
    raises = z3.And(t != self.Any, self.union(t), z3.Not(good))
    ty = z3.If(t == self.Any, NONE, z3.If(self.union(t), u, t))
    opt = z3.Or(t == self.Any, self.union(t))
    return raises, ty, opt


def pair_of(it, r):
  """Result -> (is None, type term, bool)."""
  if r is None:
    return True, None, None
  if isinstance(r, tuple) and len(r) == 2:
    return False, it.tv(r[0]), it.truth(r[1])
  if isinstance(r, STup):
    return False, r.t[0], Val.b(r.t[1])
  raise Unsupported('result shape')


def types_setup(it):
  T = Types(it)
  t = z3.Const('t', Val)
  it.assume(FA([t], z3.Or(Origin(t) == NONE, z3.And(Val.is_ref(Origin(t)), Truthy(Val.id(Origin(t))))),
               patterns=[Origin(t)]))
  # Members of a union are distinct.
  it.assume(FA([t], z3.Implies(z3.And(T.union(t), z3.Length(Args(t)) == 2), Args(t)[0] != Args(t)[1]),
               patterns=[Args(t)]))
  return T


def h_decay(sp):
  def harness(it):
    T = types_setup(it)
    t = z3.Const('ty', Val)
    it.assume(Val.is_ref(t))
    exc = r = None
    try:
      r = it.call(it.modname(it.prog.module(DC), 'maybe_decay_optional'), [SVal(t)], {})
    except PyRaise as e:
      exc = e.exc
    raises, ty, opt = T.decay(t)
    it.cover('decay')
    if exc is not None:
      it.oblige('P13: optional types: rejected with ValueError, only unions other than T | None',
                z3.And(_b(it.exc_matches(exc, ValueError)), raises))
      return
    it.oblige('P13: optional types: other unions are rejected', z3.Not(raises))
    none, rt, ro = pair_of(it, r)
    it.oblige('P13: optional types: underlying type', (not none) and rt == ty)
    it.oblige('P13: optional types: optional exactly for Any and T | None', _b(ro) == opt)
  return harness


def h_field(sp):
  def harness(it):
    T = types_setup(it)
    obj = z3.Const('cls', Val)
    it.assume(z3.Or(obj == NONE, Val.is_ref(obj)))
    attr = z3.String('attr')
    prim = z3.Bool('for_primitive')
    cache = it.new_dict_sym('cache')
    k = z3.Const('k', Val)
    n = z3.Const('n', Val)
    it.assume(FA([k], Val.is_ref(HintsOf(k)), patterns=[HintsOf(k)]))
    it.assume(FA([k, n], z3.Or(HintGet(k, n) == NONE, Val.is_ref(HintGet(k, n))), patterns=[HintGet(k, n)]))
    it.assume(FA([k], z3.Implies(cache.dom[k], cache.val[k] == HintsOf(k)), patterns=[cache.dom[k]]))
    it.assume(z3.Not(IsDC(T.SN)))
    # Generic aliases of mappings/sequences list their parameters as types.
    exc = r = None
    try:
      r = it.call(it.modname(it.prog.module(DC), 'get_class_field_type'),
                  [SVal(obj), SStr(attr), SBool(prim), cache], {})
    except PyRaise as e:
      exc = e.exc
    it.cover('field')
    hint = HintGet(HintsOf(obj), Val.str(attr))
    items, keys = attr == '__items__', attr == '__keys__'
    args = Args(obj)
    org = Origin(obj)
    # Case analysis of the documentation: (condition, absent, raises, type, optional).
    F, Tr = z3.BoolVal(False), z3.BoolVal(True)
    hd = T.decay(hint)
    d0, d1 = T.decay(args[0]), T.decay(args[1])
    cases = [
        (obj == NONE, F, F, NONE, Tr),
        (obj == T.SN, F, F, z3.If(prim, NONE, T.SN), Tr),
        (z3.And(IsDC(obj), hint == NONE), Tr, F, NONE, F),
        (z3.And(IsDC(obj), hint == T.Any), F, F, NONE, Tr),
        (z3.And(IsDC(obj), IsDC(hint)), F, F, hint, F),
        (z3.And(IsDC(obj), T.union(hint)), F, hd[0], hd[1], hd[2]),
        (z3.And(IsDC(obj), z3.Or(T.alias(hint), hint == T.SN, prim)), F, F, hint, F),
        (IsDC(obj), F, Tr, NONE, F),
        (org == NONE, F, Tr, NONE, F),
        (z3.And(items, T.seq(org), z3.Length(args) == 0), F, Tr, NONE, F),
        (z3.And(items, T.seq(org), org == T.Tuple,
                z3.Not(z3.And(z3.Length(args) == 2, args[1] == T.Ell))), F, Tr, NONE, F),
        (z3.And(items, T.seq(org)), F, d0[0], d0[1], d0[2]),
        (z3.And(z3.Not(items), T.mapping(org), keys, z3.Length(args) > 0), F, d0[0], d0[1], d0[2]),
        (z3.And(z3.Not(items), T.mapping(org), z3.Not(keys), z3.Length(args) == 2), F, d1[0], d1[1], d1[2]),
        (Tr, F, Tr, NONE, F),
    ]
    absent, raises, ty, opt = F, Tr, NONE, F
    for c, a_, r_, t_, o_ in reversed(cases):
      absent, raises, ty, opt = (z3.If(c, a_, absent), z3.If(c, r_, raises),
                                 z3.If(c, t_, ty), z3.If(c, o_, opt))
    k2 = z3.Const('k2', Val)
    it.oblige('P13: the cache keeps only true type hints', z3.Implies(
        cache.dom[k2], cache.val[k2] == HintsOf(k2)))
    if exc is not None:
      it.oblige('P13: field types: unsupported annotations are rejected with ValueError, and only they',
                z3.And(_b(it.exc_matches(exc, ValueError)), raises))
      return
    it.oblige('P13: field types: unsupported annotations are rejected', z3.Not(raises))
    none, rt, ro = pair_of(it, r)
    it.oblige('P13: field types: None exactly for a field that is not present', absent == _b(none))
    if not none:
      it.oblige('P13: field types: the type of the field', rt == ty)
      it.oblige('P13: field types: optional flag', _b(ro) == opt)
  return harness


# -- P14 -----------------------------------------------------------------------

AsDict = z3.Function('asdict', Val, Val)
IsType = z3.Function('is_type', Val, z3.BoolSort())


# Pairs(i): the (name, value) pairs of the first i fields (defined by recursion).
Pairs = z3.Function('pairs_of_first', z3.IntSort(), SeqVal)


class DcSpec(Spec):

  def __init__(self):
    super().__init__()
    B = lambda n, f: self.models.__setitem__(n, Builtin(n, f))
    B('dataclasses.is_dataclass', lambda it, a, k: SBool(IsDC(it.tv(a[0]))))
    B('dataclasses.asdict', self.asdict)
    B('dataclasses.make_dataclass', self.make)
    B('dataclasses.field', self.field)
    B('dataclasses.fields', self.fields)
    self.attr = z3.Function('attr_of', Val, Val, Val)
    self.made = []
    self.N = z3.Int('n_fields')
    self.name_at = z3.Function('field_name', z3.IntSort(), Val)

  def asdict(self, it, a, k):
    t = it.tv(a[0])
    if it.branch(z3.Or(z3.Not(IsDC(t)), IsType(t))):
      it.throw(TypeError, 'asdict() should be called on dataclass instances')
    return SVal(AsDict(t))

  def isinstance_(self, it, v, c):
    if isinstance(v, SVal) and c is type:
      return IsType(v.t)
    return UNDEF

  def field(self, it, a, k):
    o = it.new_obj(ExtRef('dataclasses.Field'))
    o.opts = dict(k)
    return o

  def make(self, it, a, k):
    o = it.new_obj(ExtRef('made class'))
    self.made.append((o, list(a), dict(k)))
    return o

  def fields(self, it, a, k):
    o = it.new_obj(ExtRef('fields tuple'))
    o.of = it.tv(a[0])
    return o

  def iter_opaque(self, it, v):
    if isinstance(v, Obj) and hasattr(v, 'of'):
      def at(i):
        f = it.new_obj(ExtRef('dataclasses.Field'))
        f.fields['name'] = SStr(Val.s(self.name_at(i)))
        return f
      return (self.N, at, v)
    return UNDEF

  def dyn_getattr(self, it, o, n, default):
    if isinstance(o, SVal):
      return SVal(self.attr(o.t, it.tv(n)))
    return UNDEF

  def opaque_attr(self, it, v, name, default):
    if name == '__dict__':
      d = self.nsdict
      return d
    return UNDEF

  def loop_invariants(self, it, L):
    out = []
    if L.acc is not None and isinstance(L.acc, ListObj) and hasattr(self, 'obj'):
      s = it.seq_term(L.acc)
      # Definition of the specification function at the indices in use.
      it.assume(Pairs(z3.IntVal(0)) == z3.Empty(SeqVal))
      for j in (L.i, L.i - 1):
        it.assume(z3.Implies(j >= 0, Pairs(j + 1) == z3.Concat(Pairs(j), z3.Unit(self.pair(j)))))
      out.append(('pairs of the fields so far, in order', s == Pairs(L.i)))
    return out

  def pair(self, j):
    return Val.tup(z3.Concat(z3.Unit(Val.str(Val.s(self.name_at(j)))),
                             z3.Unit(self.attr(self.obj, Val.str(Val.s(self.name_at(j)))))))


def h_eq(sp):
  def harness(it):
    m = it.prog.module(DC)
    cls = it.call(it.modname(m, 'make_dataclass'), ['Obj', it.new_list(['a', 'b'])], {})
    it.cover('make')
    eqf = cls.fields.get('__eq__', UNDEF) if isinstance(cls, Obj) else UNDEF
    if eqf is UNDEF:
      raise Unsupported('equality of the made class not found')
    x, y = z3.Consts('x y', Val)
    it.assume(z3.And(Val.is_ref(x), IsDC(x), z3.Not(IsType(x))))
    exc = r = None
    try:
      r = it.call(eqf, [SVal(x), SVal(y)], {})
    except PyRaise as e:
      exc = e.exc
    it.cover('eq')
    it.oblige('P14: comparing with any object never fails', exc is None)
    if exc is None:
      same = z3.And(IsDC(y), z3.Not(IsType(y)), AsDictEq(it, x, y))
      it.oblige('P14: equal exactly to dataclass instances with equal field dictionaries',
                it_b(it, r) == same)
  return harness


def AsDictEq(it, x, y):
  return _b(it.eq(SVal(AsDict(x)), SVal(AsDict(y))))


def it_b(it, v):
  return _b(it.truth(v))


def h_make(sp):
  def harness(it):
    m = it.prog.module(DC)
    names = [SStr(z3.String(f'name{j}')) for j in range(3)]
    cls = it.call(it.modname(m, 'make_dataclass'), [SStr(z3.String('cn')), it.new_list(list(names))], {})
    it.cover('make')
    it.oblige('P14: one class is made and returned', len(sp.made) == 1 and sp.made[0][0] is cls)
    o, a, k = sp.made[0]
    it.oblige('P14: the class has the requested name', it.eq(a[0], SStr(z3.String('cn'))))
    spec = a[1]
    items = spec.items if isinstance(spec, ListObj) else list(spec)
    it.oblige('P14: one field per name, in order', len(items) == 3)
    for f, n in zip(items, names):
      it.oblige('P14: field name', isinstance(f, tuple) and it.eq(f[0], n))
      it.oblige('P14: fields default to None', len(f) == 3 and 'default' in f[2].opts and f[2].opts['default'] is None)
    it.oblige('P14: identity-agnostic equality replaces the generated one', k.get('eq', True) is False)
    sp.made = []
  return harness


def h_names(sp):
  def harness(it):
    m = it.prog.module(DC)
    o = z3.Const('obj', Val)
    sp.obj = o
    it.assume(z3.And(Val.is_ref(o), z3.Not(IsType(o)), sp.N >= 0))
    j = z3.Int('j')
    it.assume(FA([j], Val.is_str(sp.name_at(j)), patterns=[sp.name_at(j)]))
    if it.branch(IsDC(o)):
      r = it.call(it.modname(m, 'fields_names_and_values'), [SVal(o)], {})
      it.cover('dataclass')
      s = it.seq_term(r)
      it.oblige('P14: exactly the (field name, value) pairs, in declaration order', s == Pairs(sp.N))
      return
    sn = it.tv(it.ext('types.SimpleNamespace'))
    if it.branch(IsA(Val.id(o), it.class_tag(it.ext('types.SimpleNamespace')))):
      v = [SVal(z3.Const(f'v{i}', Val)) for i in range(2)]
      sp.nsdict = it.new_dict([['p', v[0]], ['q', v[1]]])
      r = it.call(it.modname(m, 'fields_names_and_values'), [SVal(o)], {})
      it.cover('namespace')
      it.oblige('P14: namespaces list their attributes', it.seq_term(r) == it.seq_of([('p', v[0]), ('q', v[1])]))
      return
    r = it.call(it.modname(m, 'fields_names_and_values'), [SVal(o)], {})
    it.cover('other')
    it.oblige('P14: other objects have no fields (None)', r is None)
  return harness


PROOFS = {
    'P11': {'rename': (FsSpec, h_rename), 'operations': (FsSpec, h_fsops)},
    'P12': {'unwrap': (UnwrapSpec, h_unwrap)},
    'P13': {'maybe_decay_optional': (TypeSpec, h_decay), 'get_class_field_type': (TypeSpec, h_field)},
    'P14': {'equality': (DcSpec, h_eq), 'make_dataclass': (DcSpec, h_make), 'fields': (DcSpec, h_names)},
}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h
