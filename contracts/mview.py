"""Contracts of DataSliceManagerView (P29)."""

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm
from pyvc import seqs
from pyvc.seqs import Length
from contracts.dbm import call_method, setdom

MOD = 'koladata.ext.storage.data_slice_manager_view'
DSP = 'koladata.ext.storage.data_slice_path'
S, B, I = z3.StringSort(), z3.BoolSort(), z3.IntSort()

# The manager, over the actions of a path.
Exists = z3.Function('path_exists_in', Val, SeqVal, B)
SchemaAt = z3.Function('schema_at_path', Val, SeqVal, Val)
SliceOf = z3.Function('data_slice_of_request', Val, I, Val)
Branch = z3.Function('branch_of', Val, I, Val)
Ev = z3.Function('evaluate_path', Val, Val, Val)
PathOf = z3.Function('path_of_view', Val, Val)
Dot = z3.Function('usable_with_dot', S, B)
Kind = z3.Function('kind_of_action', Val, I)
Name = z3.Function('attr_name_of_action', Val, S)
KINDS = ['ListExplode', 'DictGetKeys', 'DictGetValues', 'GetAttr']


class MViewSpec(Spec):

  def __init__(self, prop):
    super().__init__()
    self.prop = prop
    self.externals |= {'koladata.kd', 're2', 'koladata.ext.storage.data_slice_manager_interface',
                       'koladata.ext.storage.schema_helper', 'koladata.ext.storage.stubs_and_minimal_bags_lib'}
    self.models['koladata.kd.slices.internal_is_compliant_attr_name'] = Builtin(
        'internal_is_compliant_attr_name', lambda it, a, k: SBool(Dot(it.str_t(a[0]))))
    self.contracts[(DSP, 'DataSlicePath.evaluate')] = self.m_evaluate
    self.contracts[(DSP, 'DataSlicePath.to_string')] = lambda it, fn, a, k: SStr(it.fresh('text', S))
    self.contracts[(DSP, 'DataSlicePath.__repr__')] = lambda it, fn, a, k: SStr(it.fresh('text', S))
    self.contracts[(DSP, 'DataSlicePath.__str__')] = lambda it, fn, a, k: SStr(it.fresh('text', S))

  def ob(self, it, name, f):
    it.oblige(f'{self.prop}: {name}', f)

  def opaque_eq(self, it, a, b):
    if isinstance(a, SVal) and isinstance(b, SVal):
      # managers define no equality
      return a.t == b.t
    return UNDEF

  def frozen_hook(self, it, o):
    n = getattr(o.cls, 'name', None)
    if n in KINDS:
      t = it.tv(o)
      it.assume(Kind(t) == KINDS.index(n))
      vs = list(o.fields.values())
      if n == 'GetAttr' and len(vs) == 1 and isinstance(vs[0], (str, SStr)):
        it.assume(Name(t) == it.str_t(vs[0]))

  def by_value(self, it, q, k, n, q2):
    """exists and the like go by the values of the actions: what was asked about q and an action of that value is about q2."""
    for s in it.ghost.get('asked', []):
      it.assume(z3.Implies(longer(s, q, k, n), Exists(self.mgr, s) == Exists(self.mgr, q2)))

  def m_evaluate(self, it, fn, a, k):
    x = a[1] if len(a) > 1 else k['data_slice']
    return SVal(Ev(it.keyterm(a[0]), it.tv(x)))

  def log(self, it):
    return it.ghost.setdefault('requests', [])

  def actions(self, it, p):
    if not isinstance(p, Obj):
      raise Unsupported(f'path {p!r}')
    return it.seq_term(it.getattr(p, 'actions'))

  def bind(self, it, name, names, a, k):
    """Keyword-only arguments by name; one positional path is allowed where the interface has it."""
    d = dict(k)
    for n, x in zip(names, a):
      if n in d:
        it.throw(TypeError, name)
      d[n] = x
    if len(a) > len(names) or set(d) - set(names):
      it.throw(TypeError, name)
    return d

  def opaque_attr(self, it, v, name, default):
    if it.entails(v.t == self.mgr) == 'unsat' or it.entails(v.t == Branch(self.mgr, z3.IntVal(0))) == 'unsat':
      def method(it_, a, k):
        if name in ('exists', 'get_schema_at'):
          d = self.bind(it_, name, ['path' if name == 'exists' else 'at_path'], a, {
              ('path' if name == 'exists' else 'at_path'): x for n, x in k.items()} if len(k) == 1 else k)
          q = self.actions(it_, list(d.values())[0])
          if name == 'exists':
            it_.ghost.setdefault('asked', []).append(q)
            return SBool(Exists(v.t, q))
          return SVal(SchemaAt(v.t, q))
        names = {'get_data_slice': ['populate', 'populate_including_descendants'],
                 'update': ['at_path', 'attr_name', 'attr_value', 'description'],
                 'branch': ['output_dir', 'revision_history_index', 'fs', 'description']}[name]
        d = self.bind(it_, name, names if name != 'branch' else [], a, {}) | k if name != 'update' else dict(k)
        if name == 'update' and a:
          it_.throw(TypeError, name)
        if set(d) - set(names):
          it_.throw(TypeError, name)
        i = len(self.log(it_))
        self.log(it_).append((name, v.t, d))
        if name == 'get_data_slice':
          return SVal(SliceOf(v.t, z3.IntVal(i)))
        if name == 'branch':
          r = Branch(v.t, z3.IntVal(i))
          it_.assume(Val.is_ref(r))
          return SVal(r)
        return None
      if name in ('exists', 'get_schema_at', 'get_data_slice', 'update', 'branch'):
        return Builtin('manager.' + name, method)
      return UNDEF
    if name == 'get_path_from_root':
      return Builtin(name, lambda it_, a, k: SVal(PathOf(v.t)))
    return UNDEF

  def loop_invariants(self, it, L):
    """Sets built from the views seen so far (comprehensions need none)."""
    out = []
    k, = z3.Consts('k', Val)
    j = z3.Int('j')
    f = L.frame
    objs = [(n, v) for n, v in sorted(f.locals.items()) if isinstance(v, SetObj)] + (
        [('acc', L.acc)] if isinstance(L.acc, SetObj) else [])
    if L.phase == 'entry':
      L.data['m'] = {o.ref: setdom(it, o) for _, o in objs}
    if L.kind != 'for':
      return out
    try:
      e = L.at(j)
    except Unsupported:
      return out
    if not isinstance(e, SVal):
      return out
    for n, o in objs:
      if o.ref not in L.data['m']:
        continue
      d, d0 = setdom(it, o), L.data['m'][o.ref]
      out.append((f'{n}: the paths of the views so far', FA([k], d[k] == z3.Or(d0[k], z3.Exists(
          [j], z3.And(0 <= j, j < L.i, k == PathOf(e.t)))))))
    return out


def world(sp, it):
  m = it.prog.module(MOD)
  cls = it.modname(m, 'DataSliceManagerView')
  sp.mgr = z3.Const('manager', Val)
  it.assume(Val.is_ref(sp.mgr))
  return cls, z3.Const('actions', SeqVal)


def path(it, q):
  return it.instantiate(it.modname(it.prog.module(DSP), 'DataSlicePath'), [STup(q)], {})


def make(sp, it, cls, q, m=None):
  try:
    return it.instantiate(cls, [SVal(sp.mgr if m is None else m), path(it, q)], {}), None
  except PyRaise as e:
    return None, e.exc


def is_view(sp, it, r, q, m=None):
  """r is a view of the manager at the actions q."""
  if not isinstance(r, Obj) or getattr(r.cls, 'name', '') != 'DataSliceManagerView':
    return False
  mg = it.call(it.getattr(r, 'get_manager'), [], {})
  pt = it.call(it.getattr(r, 'get_path_from_root'), [], {})
  same = it.tv(mg) == (sp.mgr if m is None else m)
  return same if q is None else z3.And(same, sp.actions(it, pt) == q)


def longer(s, q, k, n):
  """s is q and one action of kind k (and that name)."""
  a = s[Length(q)]
  return z3.And(Length(s) == Length(q) + 1, z3.SubSeq(s, z3.IntVal(0), Length(q)) == q, Kind(a) == k,
                Name(a) == n if k == 3 else z3.BoolVal(True))


def h_create(sp):
  def harness(it):
    cls, q = world(sp, it)
    if it.option('default path'):
      q = z3.Empty(SeqVal)
      v, exc = call_or(it, lambda: it.instantiate(cls, [SVal(sp.mgr)], {}))
    else:
      v, exc = make(sp, it, cls, q)
    it.cover('created' if exc is None else 'rejected')
    sp.ob(it, 'a view is created exactly at paths that exist', (exc is None) == Exists(sp.mgr, q))
    if exc is not None:
      sp.ob(it, 'other paths are rejected with ValueError', it.exc_matches(exc, ValueError))
      return
    sp.ob(it, 'a view is of the manager and path it was created with', is_view(sp, it, v, q))
    r = it.call(it.getattr(v, 'is_view_valid'), [], {})
    t = it.truth(r)
    sp.ob(it, 'a view is valid exactly if its path exists', t == Exists(sp.mgr, q))
    sp.ob(it, 'creating a view asks nothing else of the manager', not sp.log(it))
  return harness


def call_or(it, f):
  try:
    return f(), None
  except PyRaise as e:
    return None, e.exc


def stale_view(sp, it):
  """A view created when the path existed: nothing is known about now."""
  cls, q = world(sp, it)
  # The state __init__ leaves, read off a view created by the real code.
  then = z3.Const('actions_then', SeqVal)
  it.assume(Exists(sp.mgr, then))
  v, _ = make(sp, it, cls, then)
  if v is None:
    raise Unsupported('a view of an existing path is rejected')
  o = it.new_obj(cls)
  for n, x in v.fields.items():
    if isinstance(x, Obj):
      o.fields[n] = path(it, q)
    else:
      o.fields[n] = x
  return o, q


NAV = {'get_list_items': 0, 'get_dict_keys': 1, 'get_dict_values': 2, 'get_attr': 3, '__getattr__': 3, '__getitem__': 0}


def h_down(sp):
  def harness(it):
    v, q = stale_view(sp, it)
    names = list(NAV)
    for what in names:
      if what == names[-1] or it.option(what):
        break
    k = NAV[what]
    n = z3.Const('attr_name', S)
    it.assume(n != z3.StringVal('__all__'))
    args, ok = [], z3.BoolVal(True)
    if k == 3:
      args = [SStr(n)]
    if what == '__getattr__':
      ok = Dot(n)
    if what == '__getitem__':
      args = [slice(None)]
    q2 = it.fresh('longer', SeqVal)
    it.assume(longer(q2, q, k, n))
    r, exc = call_method(it, v, what, args)
    sp.by_value(it, q, k, n, q2)
    it.cover(f'{what}: {"view" if exc is None else "rejected"}')
    sp.ob(it, f'{what}: gives a view exactly if its own path and the longer one exist',
          (exc is None) == z3.And(ok, Exists(sp.mgr, q), Exists(sp.mgr, q2)))
    if exc is not None:
      sp.ob(it, f'{what}: rejected with ValueError or, for unusable names, AttributeError',
            z3.If(ok, it.exc_matches(exc, ValueError), it.exc_matches(exc, AttributeError)))
      return
    there = is_view(sp, it, r, None)
    sp.ob(it, f'{what}: a view of the same manager', there)
    if there is not False:
      sp.ob(it, f'{what}: at the path longer by that action',
            longer(sp.actions(it, it.call(it.getattr(r, 'get_path_from_root'), [], {})), q, k, n))
  return harness


def h_up(sp):
  def harness(it):
    v, q = stale_view(sp, it)
    L = Length(q)
    names = ['get_root', 'get_parent', 'get_grandparent', 'get_ancestor']
    for what in names:
      if what == names[-1] or it.option(what):
        break
    n = z3.Int('levels')
    args = [SInt(n)] if what == 'get_ancestor' else []
    up = {'get_root': L, 'get_parent': z3.IntVal(1), 'get_grandparent': z3.IntVal(2), 'get_ancestor': n}[what]
    q2 = z3.SubSeq(q, z3.IntVal(0), L - up)
    r, exc = call_method(it, v, what, args)
    it.cover(f'{what}: {"view" if exc is None else "rejected"}')
    there = z3.Or(Exists(sp.mgr, q2), up == 0) if what == 'get_ancestor' else Exists(sp.mgr, q2)
    if what == 'get_root':
      it.assume(q2 == z3.Empty(SeqVal))
    sp.ob(it, f'{what}: gives a view exactly if there are that many levels and the path exists',
          (exc is None) == z3.And(up >= 0, up <= L, there))
    if exc is not None:
      sp.ob(it, f'{what}: otherwise ValueError', it.exc_matches(exc, ValueError))
      return
    sp.ob(it, f'{what}: the view of the same manager that many levels up', is_view(sp, it, r, q2))
  return harness


def h_equal(sp):
  def harness(it):
    v, q = stale_view(sp, it)
    cls = v.cls
    if it.option('other kind'):
      o = it.new_obj(ExtRef('some.Other'))
      r = it.call(it.getattr(v, '__eq__'), [o], {})
      it.cover('other')
      sp.ob(it, 'a view equals no object of another class', it.truth(r) == z3.BoolVal(False)
            if not isinstance(it.truth(r), bool) else not it.truth(r))
      return
    m2, q2 = z3.Const('manager2', Val), z3.Const('actions2', SeqVal)
    it.assume(Val.is_ref(m2))
    w = it.new_obj(cls)
    for n, x in v.fields.items():
      w.fields[n] = path(it, q2) if isinstance(x, Obj) else SVal(m2)
    r = it.call(it.getattr(v, '__eq__'), [w], {})
    it.cover('view')
    t = it.truth(r)
    sp.ob(it, 'views are equal exactly if manager and path are', t == z3.And(sp.mgr == m2, q == q2))
  return harness


def h_read(sp):
  def harness(it):
    v, q = stale_view(sp, it)
    pk = it.keyterm(it.call(it.getattr(v, 'get_path_from_root'), [], {}))
    if it.option('get_schema'):
      r, exc = call_method(it, v, 'get_schema', [])
      it.cover('schema')
      sp.ob(it, 'get_schema: exactly where the path exists', (exc is None) == Exists(sp.mgr, q))
      if exc is not None:
        sp.ob(it, 'get_schema: otherwise ValueError', it.exc_matches(exc, ValueError))
      else:
        sp.ob(it, 'get_schema: the schema of the manager at the path', it.tv(r) == SchemaAt(sp.mgr, q))
      return
    what = 'get' if it.option('get') else 'get_data_slice'
    kw, lists = {}, {}
    for n in ('populate', 'populate_including_descendants'):
      if it.option(n):
        s = z3.Const('views_' + n, SeqVal)
        j = z3.Int('j')
        it.assume_q(FA([j], z3.Implies(z3.And(0 <= j, j < Length(s)), Val.is_ref(s[j])), patterns=[s[j]]))
        it.assume_q(FA([j], z3.Implies(z3.And(0 <= j, j < Length(s)), z3.And(
            s[j] != sp.mgr, s[j] != Branch(sp.mgr, z3.IntVal(0)))), patterns=[s[j]]))
        kw[n] = it.new_list_sym(s)
        lists[n] = s
    r, exc = call_method(it, v, what, [], kw)
    it.cover('data')
    sp.ob(it, f'{what}: exactly where the path exists', (exc is None) == Exists(sp.mgr, q))
    if exc is not None:
      sp.ob(it, f'{what}: otherwise ValueError', it.exc_matches(exc, ValueError))
      sp.ob(it, f'{what}: ... and nothing is loaded', not sp.log(it))
      return
    ev = sp.log(it)
    sp.ob(it, f'{what}: one request to the manager', [e[0] for e in ev] == ['get_data_slice'])
    if [e[0] for e in ev] != ['get_data_slice']:
      return
    d = ev[0][2]
    k = it.fresh('k', Val)
    j = z3.Int('j')
    for n in ('populate', 'populate_including_descendants'):
      s = lists.get(n)
      want = z3.Exists([j], z3.And(0 <= j, j < Length(s), k == PathOf(s[j]))) if s is not None else z3.BoolVal(False)
      if n == 'populate':
        want = z3.Or(want, k == pk)
      x = d.get(n)
      got = z3.BoolVal(False) if x is None else setdom(it, bm.as_set(it, x))[k]
      sp.ob(it, f'{what}: {n} has exactly the paths of the views given' + (' and the own path' if n == 'populate' else ''), got == want)
    sp.ob(it, f'{what}: the part of the loaded slice at the path', it.tv(r) == Ev(pk, SliceOf(sp.mgr, z3.IntVal(0))))
  return harness


def h_update(sp):
  def harness(it):
    v, q = stale_view(sp, it)
    n, desc = z3.Const('attr_name', S), z3.Const('description', S)
    x = z3.Const('value', Val)
    it.assume(Val.is_ref(x))
    has = it.option('description')
    dot = it.option('assignment')
    if dot:
      try:
        it.setattr_(v, n, (SVal(x), SStr(desc)) if has else SVal(x)) if hasattr(it, 'setattr_') else it.call(
            it.getattr(v, '__setattr__'), [SStr(n), (SVal(x), SStr(desc)) if has else SVal(x)], {})
        exc = None
      except PyRaise as e:
        exc = e.exc
      ok = z3.And(Dot(n), Exists(sp.mgr, q))
    else:
      _, exc = call_method(it, v, 'update', [SStr(n), SVal(x)], {'description': SStr(desc)} if has else {})
      ok = Exists(sp.mgr, q)
    it.cover(f'update: {"done" if exc is None else "rejected"}')
    what = 'assignment' if dot else 'update'
    ev = sp.log(it)
    sp.ob(it, f'{what}: exactly where the path exists', (exc is None) == ok)
    if exc is not None:
      sp.ob(it, f'{what}: otherwise ValueError, or AttributeError for unusable names', z3.If(
          Dot(n) if dot else z3.BoolVal(True), it.exc_matches(exc, ValueError), it.exc_matches(exc, AttributeError)))
      sp.ob(it, f'{what}: ... and nothing is updated', not ev)
      return
    sp.ob(it, f'{what}: one update of the manager', [e[0] for e in ev] == ['update'])
    if [e[0] for e in ev] != ['update']:
      return
    d = ev[0][2]
    sp.ob(it, f'{what}: at the path, with the given name and value', z3.And(
        sp.actions(it, d['at_path']) == q, it.str_t(d['attr_name']) == n, it.tv(d['attr_value']) == x)
        if {'at_path', 'attr_name', 'attr_value'} <= set(d) else False)
    got = d.get('description')
    sp.ob(it, f'{what}: with the given description', it.tv(got) == (Val.str(desc) if has else NONE))
  return harness


def h_branch(sp):
  def harness(it):
    v, q = stale_view(sp, it)
    desc = z3.Const('description', S)
    has = it.option('description')
    b = Branch(sp.mgr, z3.IntVal(0))
    r, exc = call_method(it, v, 'branch', [], {'description': SStr(desc)} if has else {})
    it.cover(f'branch: {"done" if exc is None else "rejected"}')
    ev = sp.log(it)
    if exc is not None:
      sp.ob(it, 'branch: ValueError exactly where the path does not exist, before or after', z3.And(
          it.exc_matches(exc, ValueError), z3.Not(z3.And(Exists(sp.mgr, q), Exists(b, q)))))
      sp.ob(it, 'branch: ... no branch is made of a path that does not exist', z3.Or(Exists(sp.mgr, q), not ev))
      return
    sp.ob(it, 'branch: only of paths that exist', Exists(sp.mgr, q))
    sp.ob(it, 'branch: one branch of the manager', [e[0] for e in ev] == ['branch'])
    if [e[0] for e in ev] != ['branch']:
      return
    d = ev[0][2]
    sp.ob(it, 'branch: at the latest revision, in a directory of its own choice',
          all(d.get(x) is None for x in ('output_dir', 'fs')) and d.get('revision_history_index') in (None, -1))
    sp.ob(it, 'branch: with the given description', it.tv(d.get('description')) == (Val.str(desc) if has else NONE))
    sp.ob(it, 'branch: the view of the branch at the same path', is_view(sp, it, r, q, b))
  return harness


PROOFS = {'P29': {
    'create': (lambda: MViewSpec('P29'), h_create),
    'down': (lambda: MViewSpec('P29'), h_down),
    'up': (lambda: MViewSpec('P29'), h_up),
    'equal': (lambda: MViewSpec('P29'), h_equal),
    'read': (lambda: MViewSpec('P29'), h_read),
    'update': (lambda: MViewSpec('P29'), h_update),
    'branch': (lambda: MViewSpec('P29'), h_branch),
}}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h


TRUSTED = {'P29': [
    'the methods of the data slice manager (exists, get_schema_at, get_data_slice, update, branch) are opaque functions of '
    'their arguments; P25 to P28 decide them',
    'DataSlicePath.evaluate and the texts of paths are opaque (P15)',
    'kd.slices.internal_is_compliant_attr_name is a predicate of the name', 'z3, cvc5 and the VC generator pyvc/']}
ASSUMPTIONS = {'P29': [
    'managers are compared by identity, as the class defines no equality',
    'filter, select, get_children, find_descendants, grep_descendants and the list of attributes are decided by the '
    'executable contract on generated data only: bounded, not counted as proved']}
