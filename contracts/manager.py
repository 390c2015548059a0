"""Contracts of DataSliceManager: commits, revisions, branches (P26..P28)."""

import z3

from pyvc.core import *
from pyvc import pure as pure_
from pyvc import builtins_model as bm
from contracts import dbm
from contracts.dbm import DirSpec, call_method, setdom, SetArr, Ser, SerV, SerN, SerE, Updated, nv
from contracts.fsmodel import *

MOD = 'koladata.ext.storage.data_slice_manager'
PB = 'koladata.ext.storage.data_slice_manager_metadata_pb2'
SH = 'koladata.ext.storage.schema_helper'
DB = 'koladata.ext.storage.data_bag_manager'
BUDGET_S = 400
B, I = z3.BoolSort(), z3.IntSort()

# Revisions.
RDesc = z3.Function('rev_description', Val, S)
RTime = z3.Function('rev_timestamp', Val, Val)
RKind = z3.Function('rev_kind', Val, S)
RData = z3.Function('rev_data_bags', Val, SeqVal)
RSchema = z3.Function('rev_schema_bags', Val, SeqVal)
RMap = z3.Function('rev_map_bags', Val, SeqVal)
RPath = z3.Function('rev_at_path', Val, S)
RAttr = z3.Function('rev_attr_name', Val, S)
RParent = z3.Function('rev_parent_dir', Val, S)
RIdx = z3.Function('rev_parent_index', Val, I)
NAMES = [('data', 'added_data_bag_names', RData), ('schema', 'added_schema_bag_names', RSchema),
         ('map', 'added_snn_to_data_bags_update_bag_names', RMap)]
First = {n: z3.Function(f'first_revision_with_{n}_bag', Val, I) for n, _, _ in NAMES}
# The version and initial data of a manager, as one string.
VerId = z3.Function('version_and_id', S, S, S)
VerOf = z3.Function('version_of', S, S)
IdOf = z3.Function('id_of', S, S)
# Collaborators.
MgrAt = z3.Function('bag_manager_at', S, Val)
MinBag = z3.Function('minimal_bag', Val, SetArr, Val)
Bags2 = z3.Function('slice_updated', Val, Val, Val)
SchemaOf = z3.Function('schema_of', Val, Val)
HelperOf = z3.Function('schema_helper_of', Val, Val)
CopyOf = z3.Function('initial_data_copy', Val, Val)
InitAt = z3.Function('initial_data_read', S, S, Val)
InitNames = z3.Function('initial_names', Val, SetArr)
InitBag = z3.Function('initial_bag', Val, SetArr, Val)
InitRoot = z3.Function('initial_root', Val, Val)
IdStr = z3.Function('initial_data_id', Val, S)
Loaded = z3.Function('value_in_file', S, Val)
GetItem = z3.Function('dict_item', Val, Val, Val)
HasF = z3.Function('is_present', Val, B)
ToPy = z3.Function('list_to_py', Val, SeqVal)
SchemaBagF = z3.Function('schema_bag_for', Val, SetArr, Val)
Stamp = z3.Function('formatted_time', Val, Val, Val, Val)


class ManSpec(DirSpec):
  """A DataSliceManager in any state; its collaborators by contract."""

  def __init__(self, prop):
    super().__init__(prop)
    for x in (PB, 'google.protobuf.timestamp', 'koladata.ext.storage.bare_root_initial_data_manager',
              'koladata.ext.storage.initial_data_manager_registry',
              'koladata.ext.storage.initial_data_manager_interface',
              'koladata.ext.storage.data_slice_manager_interface',
              'koladata.ext.storage.stubs_and_minimal_bags_lib', 'base64', 'datetime'):
      self.externals.add(x)
    m = self.models
    b = Builtin
    m['google.protobuf.timestamp.from_current_time'] = b('now', lambda it, a, k: SVal(self.ref(it, 'now')))
    m['google.protobuf.timestamp.to_datetime'] = b('to_datetime', self.m_to_datetime)
    m['koladata.kd.s11n.dump'] = b('kd.s11n.dump', self.m_dump)
    m['koladata.kd.s11n.load'] = b('kd.s11n.load', self.m_load)
    m['koladata.kd.has'] = b('kd.has', lambda it, a, k: SBool(HasF(it.tv(a[0]))))
    m['koladata.ext.storage.initial_data_manager_registry.get_initial_data_manager_class'] = b(
        'get_initial_data_manager_class', self.m_class)
    m['koladata.ext.storage.bare_root_initial_data_manager.BareRootInitialDataManager.create_new'] = b(
        'BareRootInitialDataManager.create_new', lambda it, a, k: SVal(self.ref(it, 'bare_root')))
    m['copy.deepcopy'] = b('copy.deepcopy', self.m_deepcopy)
    c = self.contracts
    c[(DB, 'DataBagManager.create_from_dir')] = lambda it, fn, a, k: self.open_bags(it, 'create_from_dir', a, k)
    c[(DB, 'DataBagManager.create_new')] = lambda it, fn, a, k: self.open_bags(it, 'create_new', a, k)
    self.events = []

  def ob(self, it, props, name, f):
    it.oblige(f'{self.prop}: {name}', f)

  def ref(self, it, n):
    v = it.fresh(n, Val)
    it.assume_q(Val.is_ref(v))
    return v

  def setup(self, it):
    super().setup(it)
    x, y = z3.Consts('x y', S)
    v = z3.Const('v', Val)
    it.assume_q(FA([x, y], z3.And(VerOf(VerId(x, y)) == x, IdOf(VerId(x, y)) == y), patterns=[VerId(x, y)]))
    it.assume_q(FA([v], Val.is_ref(HelperOf(v)), patterns=[HelperOf(v)]))
    it.assume_q(FA([v], Val.is_ref(CopyOf(v)), patterns=[CopyOf(v)]))
    it.assume_q(FA([x], Val.is_ref(MgrAt(x)), patterns=[MgrAt(x)]))
    it.assume_q(FA([x, y], Val.is_ref(InitAt(x, y)), patterns=[InitAt(x, y)]))
    self.events = it.ghost['events'] = []

  # -- messages --
  LISTS = tuple(f for _, f, _ in NAMES)

  def new_msg(self, it, name):
    o = it.new_obj(ExtRef(PB + '.' + name))
    o.isnew = True
    f = o.fields
    if name == 'DataSliceManagerMetadata':
      f.update(version='', initial_data_manager_id='', metadata_update_number=0)
      l = f['revision_history'] = it.new_list([])
      l.entries = True
    elif name == 'RevisionMetadata':
      f.update({'description': '', 'timestamp': None, '#kind': None})
      for n in self.LISTS:
        f[n] = it.new_list([])
    elif name == 'AttributeUpdateMetadata':
      f.update(at_path='', attr_name='')
    elif name == 'BranchMetadata':
      f.update(parent_persistence_directory='', parent_revision_history_index=0)
    return o

  def msg_kind(self, o):
    if isinstance(o, Obj) and isinstance(o.cls, ExtRef) and o.cls.name.startswith(PB + '.'):
      return o.cls.name[len(PB) + 1:]
    return None

  SUB = {'creation': 'CreationMetadata', 'attribute_update': 'AttributeUpdateMetadata', 'branch': 'BranchMetadata'}

  def call_ext(self, it, fn, args, kwargs):
    if fn.name.startswith(PB + '.') and fn.name.count('.') == PB.count('.') + 1:
      if it.pure:
        raise pure_.NotPure('message')
      if args:
        it.throw(TypeError)
      o = self.new_msg(it, fn.name[len(PB) + 1:])
      for k, v in kwargs.items():
        self.msg_set(it, o, k, v, init=True)
      return o
    return UNDEF

  def msg_set(self, it, o, k, v, init=False):
    kind = self.msg_kind(o)
    if v is None and init:
      return
    if kind == 'RevisionMetadata' and k in self.SUB:
      o.fields['#kind'] = k
      o.fields['#sub'] = v
      return
    if k not in o.fields or k.startswith('#'):
      it.throw(ValueError, 'no such field')
    f = o.fields[k]
    if isinstance(f, ListObj):
      if not init:
        it.throw(AttributeError)
      f.items, f.seq = [], None
      if isinstance(v, ListObj) and v.items is not None:
        v = tuple(self.snapshot(it, x) for x in v.items)
      bm.list_extend(it, f, v)
      return
    if k == 'description' and isinstance(v, SVal):
      # None counts as not given
      v = SStr(z3.If(v.t == NONE, z3.StringVal(''), Val.s(v.t)))
    o.fields[k] = v

  def snapshot(self, it, x):
    # a message given to another one is copied
    r = self.reify(it, x)
    return x if r is UNDEF else SVal(r)

  def on_write(self, it, obj, name, val):
    pass

  def obj_attr(self, it, o, name):
    k = self.msg_kind(o)
    if k is not None:
      if name in ('CopyFrom', 'MergeFrom'):
        return Builtin('Message.' + name, lambda it, a, kw: self.copy_from(it, o, a[0], name))
      if name == 'SerializeToString':
        return Builtin('Message.SerializeToString', lambda it, a, kw: SVal(self.ser(it, o)))
      return UNDEF
    return FsSpec.obj_attr(self, it, o, name)

  def copy_from(self, it, o, src, how):
    if self.msg_kind(o) != 'DataSliceManagerMetadata' or self.msg_kind(src) != self.msg_kind(o):
      raise Unsupported('CopyFrom')
    if how == 'MergeFrom' and not getattr(o, 'isnew', False):
      raise Unsupported('MergeFrom')
    o.isnew = False
    for n in ('version', 'initial_data_manager_id', 'metadata_update_number'):
      o.fields[n] = src.fields[n]
      it.wr(o, n)
    l, s = o.fields['revision_history'], src.fields['revision_history']
    l.items = None if s.items is None else list(s.items)
    l.seq = s.seq
    it.wr(l, '<content>')
    return None

  def m_deepcopy(self, it, a, k):
    if self.msg_kind(a[0]) != 'DataSliceManagerMetadata':
      raise Unsupported('deepcopy')
    o = self.new_msg(it, 'DataSliceManagerMetadata')
    self.copy_from(it, o, a[0], 'CopyFrom')
    return o

  def state(self, it, o):
    return (VerId(it.str_t(it.unopaque(o.fields['version'])), it.str_t(it.unopaque(o.fields['initial_data_manager_id']))),
            it.int_t(o.fields['metadata_update_number']), it.seq_term(o.fields['revision_history']))

  def ser(self, it, o):
    if self.msg_kind(o) != 'DataSliceManagerMetadata':
      raise Unsupported('serialize')
    return Ser(*self.state(it, o))

  def from_string(self, it, a, k):
    t = it.tv(a[0])
    o = self.new_msg(it, 'DataSliceManagerMetadata')
    o.fields['version'] = SStr(VerOf(SerV(t)))
    o.fields['initial_data_manager_id'] = SStr(IdOf(SerV(t)))
    it.assume_q(VerId(VerOf(SerV(t)), IdOf(SerV(t))) == SerV(t))
    o.fields['metadata_update_number'] = SInt(SerN(t))
    l = o.fields['revision_history']
    l.items, l.seq = None, SerE(t)
    return o

  def model(self, it, dotted):
    if dotted == PB + '.DataSliceManagerMetadata.FromString':
      return Builtin('FromString', self.from_string)
    return super().model(it, dotted)

  def reify(self, it, v):
    if self.msg_kind(v) == 'RevisionMetadata' if isinstance(v, Obj) else False:
      e = it.fresh('revision', Val)
      f = v.fields
      s = lambda x: it.str_t(it.unopaque(x) if isinstance(x, SVal) else x)
      it.assume_q(z3.And(
          Val.is_ref(e), RDesc(e) == s(f['description']),
          RKind(e) == z3.StringVal(f['#kind'] or ''),
          *[F(e) == it.seq_term(f[n]) for _, n, F in NAMES]))
      if f['#kind'] == 'attribute_update':
        it.assume_q(z3.And(RPath(e) == s(f['#sub'].fields['at_path']), RAttr(e) == s(f['#sub'].fields['attr_name'])))
      elif f['#kind'] == 'branch':
        it.assume_q(z3.And(RParent(e) == s(f['#sub'].fields['parent_persistence_directory']),
                           RIdx(e) == it.int_t(f['#sub'].fields['parent_revision_history_index'])))
      return e
    return super().reify(it, v)

  _REC = {}

  def opaque_attr(self, it, v, name, default):
    t = v.t
    for _, n, F in NAMES:
      if name == n:
        return STup(F(t))
    simple = {
        'description': lambda: SStr(RDesc(t)), 'timestamp': lambda: SVal(RTime(t)),
        'attribute_update': lambda: SVal(t), 'branch': lambda: SVal(t), 'creation': lambda: SVal(t),
        'at_path': lambda: SStr(RPath(t)), 'attr_name': lambda: SStr(RAttr(t)),
        'parent_persistence_directory': lambda: SStr(RParent(t)),
        'parent_revision_history_index': lambda: SInt(RIdx(t))}
    if name in simple:
      return simple[name]()
    f = getattr(self, 'o_' + name, None)
    if f is not None:
      return Builtin(name, lambda it, a, k: f(it, t, *a, **k))
    return UNDEF

  def o_WhichOneof(self, it, t, n):
    if n != 'revision_kind':
      raise Unsupported('WhichOneof')
    return SStr(RKind(t))

  # -- collaborators (by contract) --
  def effect(self, it, what, *args):
    if it.pure:
      raise pure_.NotPure(what)
    self.on_effect(it, what, *args)
    self.fault(it)
    it.ghost['events'].append((what,) + args)

  def on_effect(self, it, what, *args):
    pass

  def set_term(self, it, v):
    if isinstance(v, (SetObj, SetDict)):
      return setdom(it, v) if isinstance(v, SetObj) else v.dom
    s = bm.as_set(it, v)
    return setdom(it, s)

  def open_bags(self, it, what, a, k):
    a = [x for x in a if not isinstance(x, ClassVal)]
    d = it.str_t(self.strval(it, a[0] if a else k['persistence_dir']))
    fs = k.get('fs', a[1] if len(a) > 1 else None)
    self.effect(it, what, d, fs)
    return SVal(MgrAt(d))

  def o_create_branch(self, it, t, bag_names, *, output_dir=None, fs=None, **k):
    self.effect(it, 'create_branch', it.str_t(self.strval(it, output_dir)), fs, t, it.define('branch_names', self.set_term(it, bag_names)))
    return None

  def o_get_minimal_bag(self, it, t, names):
    self.fault(it)
    return SVal(MinBag(t, it.define('names', self.set_term(it, names))))

  def o_serialize(self, it, t, path, *, fs=None):
    self.effect(it, 'serialize', it.str_t(self.strval(it, path)), fs, t)
    return None

  def o_copy(self, it, t):
    return SVal(CopyOf(t))

  def o_get_id(self, it, t):
    return SStr(IdStr(t))

  def o_get_description(self, it, t):
    return SStr(it.fresh('description', S))

  def o_get_schema(self, it, t):
    return SVal(SchemaOf(t))

  def o_updated(self, it, t, *bags):
    for b in bags:
      t = Bags2(t, it.tv(b))
    return SVal(t)

  def o_get_data_slice(self, it, t):
    return SVal(InitRoot(t))

  def o_get_all_schema_node_names(self, it, t):
    s = it.new_set()
    s.items, s.dom = None, InitNames(t)
    s.card = it.fresh('card', I)
    it.assume_q(s.card >= 0)
    return s

  def o_get_data_bag_for_schema_node_names(self, it, t, names):
    return SVal(InitBag(t, it.define('initial_names', self.set_term(it, names))))

  def o_get_schema_bag(self, it, t, names):
    return SVal(SchemaBagF(t, it.define('schema_names', self.set_term(it, names))))

  def o_get_available_bag_names(self, it, t):
    return self.o_get_all_schema_node_names(it, self.ref(it, 'available'))

  def o_deserialize(self, it, t, path, *, fs=None):
    p = it.str_t(self.strval(it, path))
    self.fault(it)
    it.ghost['events'].append(('deserialize', p, fs, t))
    return SVal(InitAt(IdStr(t), p))

  def o_to_py(self, it, t):
    return STup(ToPy(t))

  def m_class(self, it, a, k):
    c = self.ref(it, 'manager_class')
    it.assume_q(IdStr(c) == it.str_t(it.unopaque(a[0]) if isinstance(a[0], SVal) else a[0]))
    if not it.branch(it.fresh('registered', B)):
      self.count(it, 'faults')
      it.throw(ValueError)
    return SVal(c)

  def m_dump(self, it, a, k):
    self.effect(it, 'dump', it.str_t(self.strval(it, a[1])), k.get('fs'), it.tv(a[0]))
    return None

  def m_load(self, it, a, k):
    p = it.str_t(self.strval(it, a[0]))
    self.fault(it)
    it.ghost['events'].append(('load', p, k.get('fs')))
    return SVal(Loaded(p))

  def m_to_datetime(self, it, a, k):
    return SVal(it.tv(a[0]))

  def o_astimezone(self, it, t, tz=None):
    return SVal(Stamp(t, it.tv(tz), NONE))

  def o_strftime(self, it, t, fmt):
    return SVal(Stamp(t, NONE, it.tv(fmt)))

  def instantiate(self, it, cls, args, kwargs):
    if cls.name == 'SchemaHelper':
      a = args[0] if args else kwargs['schema']
      it.ghost['events'].append(('helper',))
      return SVal(HelperOf(it.tv(a)))
    return super().instantiate(it, cls, args, kwargs)

  def opaque_getitem(self, it, v, k):
    return SVal(GetItem(v.t, it.tv(k)))

  # -- a manager in any state --
  def man_facts(self, it):
    H, n = self.Hs, Length(self.Hs)
    i, m = z3.Ints('i m')
    x = z3.Const('x', Val)
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < n), Val.is_ref(H[i])), patterns=[H[i]]))
    for nm, _, F in NAMES:
      W = First[nm]
      e = F(H[i])[m]
      it.assume_q(FA([i, m], z3.Implies(z3.And(0 <= i, i < n, 0 <= m, m < Length(F(H[i]))), z3.And(
          Val.is_str(e), 0 <= W(e), W(e) <= i, seqs.has(F(H[W(e)]), e))), patterns=[e]))

  def bag_names(self, upto):
    """The names of the bags of the first revisions, per manager."""
    out = {}
    for nm, _, F in NAMES:
      W = First[nm]
      out[nm] = lambda k, F=F, W=W: z3.And(0 <= W(k), W(k) < upto, seqs.has(F(self.Hs[W(k)]), k))
    return out

  def manager_obj(self, it):
    self.setup(it)
    self.Hs = it.fresh('history', SeqVal)
    self.N0 = it.fresh('update_number', I)
    self.V, self.Id, self.D = it.fresh('version', S), it.fresh('initial_id', S), it.fresh('dir', S)
    it.assume(z3.And(self.N0 >= 0, self.N0 < MAXN - 1, Length(self.Hs) > 0))
    self.man_facts(it)
    m = it.prog.module(MOD)
    o = it.new_obj(it.modname(m, 'DataSliceManager'))
    f = o.fields
    self.fs = self.new_fs(it)
    f['_persistence_dir'], f['_fs'] = SStr(self.D), self.fs
    f['_is_read_only'] = SBool(it.fresh('read_only', B))
    for k, n in (('_initial_data_manager', 'initial'), ('_data_bag_manager', 'data_bags'),
                 ('_schema_bag_manager', 'schema_bags'), ('_schema_helper', 'helper'),
                 ('_initial_schema_node_name_to_data_bag_names', 'initial_map'),
                 ('_schema_node_name_to_data_bags_updates_manager', 'map_bags')):
      f[k] = SVal(self.ref(it, n))
    it.assume_q(IdStr(f['_initial_data_manager'].t) == self.Id)
    msg = self.new_msg(it, 'DataSliceManagerMetadata')
    msg.fields.update(version=SStr(self.V), initial_data_manager_id=SStr(self.Id), metadata_update_number=SInt(self.N0))
    msg.fields['revision_history'].items = None
    msg.fields['revision_history'].seq = self.Hs
    f['_metadata'] = msg
    self.man, self.msg, self.f0 = o, msg, dict(f)
    return o

  def same_man(self, it):
    f = self.man.fields
    if any(k not in f or f[k] is not v and not (isinstance(v, SVal) and isinstance(f[k], SVal) and f[k].t.eq(v.t))
           for k, v in self.f0.items()):
      return z3.BoolVal(False)
    v, n, h = self.state(it, self.msg)
    return z3.And(v == VerId(self.V, self.Id), n == self.N0, h == self.Hs)

  # -- loop invariants: sets of bag names --
  def loop_invariants(self, it, L):
    c = []
    j, m = z3.Ints('j m')
    k = z3.Const('k', Val)
    if L.phase == 'entry':
      L.data['d'] = {}
    if L.kind != 'for':
      return c
    e = None
    try:
      e = L.at(j)
    except Unsupported:
      pass
    f = L.frame
    seen = set()
    while f is not None and f.fn is not None:
      for n, o in f.locals.items():
        if isinstance(o, SetObj) and o.ref not in seen:
          seen.add(o.ref)
          c += self.set_candidates(it, L, n, o, e, j, m, k)
      f = f.closure
    return c

  def set_candidates(self, it, L, n, o, e, j, m, k):
    c = []
    A = it.define('members', setdom(it, o)) if o.items else setdom(it, o)
    H = self.Hs
    for nm, _, F in NAMES:
      W = First[nm]
      x = F(H[j])[m]
      c.append((f'{n}: has the {nm} bags of the revisions so far', FA([j, m], z3.Implies(
          z3.And(0 <= j, j < L.i, 0 <= m, m < Length(F(H[j]))), A[x]), patterns=[x])))
      c.append((f'{n}: has only {nm} bags of the revisions so far', FA([k], z3.Implies(
          A[k], z3.And(0 <= W(k), W(k) < L.i, seqs.has(F(H[W(k)]), k))), patterns=[A[k]])))
    return c

  def is_names(self, it, prop, what, dom, nm, upto):
    """Obligations: dom is exactly the names of the first `upto` revisions."""
    k = it.fresh('name', Val)
    i0, m0 = it.fresh('rev', I), it.fresh('pos', I)
    F, W = {n: F for n, _, F in NAMES}[nm], First[nm]
    x = F(self.Hs[i0])[m0]
    self.ob(it, prop, f'{what}: all {nm} bags of the revisions', z3.Implies(
        z3.And(0 <= i0, i0 < upto, 0 <= m0, m0 < Length(F(self.Hs[i0]))), dom[x]))
    self.ob(it, prop, f'{what}: no other {nm} bags', z3.Implies(dom[k], z3.And(
        0 <= W(k), W(k) < upto, seqs.has(F(self.Hs[W(k)]), k))))


def modf(it, name):
  return it.modname(it.prog.module(MOD), name)


def call(it, f, args, kwargs=None):
  try:
    return it.call(f, args, kwargs or {}), None
  except PyRaise as e:
    return None, e.exc


# ------------------------------------------------------------- P26: commits --

class PersistSpec(ManSpec):

  def on_commit(self, it, a, b):
    fs = it.ghost['fs']
    self.ob(it, 'P26', 'commit: the file has the number of the update', b == self.final_path(self.D, self.N0))
    self.ob(it, 'P26', 'commit: the metadata is complete before it is published', fs[a] == self.bytes)


def h_persist(sp):
  def harness(it):
    sp.manager_obj(it)
    sp.bytes = Ser(VerId(sp.V, sp.Id), sp.N0, sp.Hs)
    p = sp.final_path(sp.D, sp.N0)
    r, exc = call(it, modf(it, '_persist_metadata'), [sp.fs, SStr(sp.D), sp.msg])
    if exc is None:
      it.cover('committed')
      sp.ob(it, 'P26', 'commit: returns only after exactly one commit', sp.counted(it, 'commits') == 1)
      sp.ob(it, 'P26', 'commit: what was committed is on disk', it.ghost['fs'][p] == sp.bytes)
    else:
      it.cover('failed')
      sp.ob(it, 'P26', 'commit: a failure commits nothing', sp.counted(it, 'commits') == 0)
      sp.ob(it, 'P26', 'commit: fails only for an i/o error or because somebody else committed', z3.Or(
          sp.counted(it, 'faults') != 0, it.ghost['fs'][p] != NONE))
    sp.ob(it, 'P26', 'commit: the metadata given is unchanged', sp.same_man(it))
  return harness


# ----------------------------------------------------------- P27: revisions --

class ReadSpec(ManSpec):

  def on_mutate(self, it, what, p):
    self.ob(it, 'P27', f'opening writes nothing ({what})', False)

  def on_effect(self, it, what, *args):
    self.ob(it, 'P27', f'opening writes nothing ({what})', what == 'create_from_dir')


def h_read_metadata(sp):
  def harness(it):
    sp.setup(it)
    D = sp.D = it.fresh('dir', S)
    sp.disk(it)
    q = it.fresh('committed', S)
    it.ghost['tracked'] = [q]
    fs0 = it.ghost['fs']
    committed = lambda q: z3.And(fs0[q] != NONE, DirOf(q) == D, Join(D, BaseOf(q)) == q, IsFinal(BaseOf(q)))
    idx = None if it.option('latest') else SInt(it.fresh('index', I))
    r, exc = call(it, modf(it, '_read_metadata'), [sp.new_fs(it), SStr(D), idx])
    ok = sp.counted(it, 'faults') == 0
    fs1 = it.ghost['fs']
    if exc is not None:
      it.cover('failed')
      if idx is None:
        sp.ob(it, 'P27', 'latest: fails only for an i/o error or without committed metadata', z3.Or(
            z3.Not(ok), z3.Not(committed(q))))
      else:
        sp.ob(it, 'P27', 'revision: fails only for an i/o error, a bad index or without committed metadata', z3.Or(
            z3.Not(ok), z3.Not(committed(q)), idx.t < 0, idx.t > Num(BaseOf(q)), fs1[sp.final_path(D, idx.t)] == NONE))
        sp.ob(it, 'P27', 'revision: a bad index is a ValueError', z3.Implies(
            z3.And(ok, z3.Or(idx.t < 0)), it.exc_matches(exc, ValueError)))
      return
    it.cover('read')
    V, N, E = sp.state(it, r)
    sp.ob(it, 'P27', 'the metadata read is committed', fs1[sp.final_path(D, N)] == Ser(V, N, E))
    if idx is None:
      sp.ob(it, 'P27', 'latest: nothing committed is newer', z3.Implies(committed(q), Num(BaseOf(q)) <= N))
    else:
      sp.ob(it, 'P27', 'revision: the one asked for', N == idx.t)
      sp.ob(it, 'P27', 'revision: negative numbers are refused', idx.t >= 0)
  return harness


class OpenSpec(ReadSpec):

  def __init__(self, prop):
    super().__init__(prop)
    self.contracts[(MOD, '_read_metadata')] = self.c_read

  def c_read(self, it, fn, a, k):
    """Proved: P27 'read metadata'."""
    args = dict(zip(('fs', 'persistence_dir', 'at_revision_history_index'), a), **k)
    self.ob(it, 'P27', 'open: the metadata of the directory given is read', it.str_t(args['persistence_dir']) == self.D)
    self.ob(it, 'P27', 'open: through the file system given', args['fs'] is self.fs)
    self.ob(it, 'P27', 'open: at the revision asked for', (
        args['at_revision_history_index'] is self.idx))
    self.fault(it)
    if not it.branch(it.fresh('exists', B)):
      it.throw(ValueError)
    return self.msg


def h_open(sp):
  def harness(it):
    sp.manager_obj(it)
    D = sp.D
    sp.idx = None if it.option('latest') else SInt(it.fresh('index', I))
    ro = it.option('ro')
    cls = modf(it, 'DataSliceManager')
    kw = {'fs': sp.fs, 'at_revision_history_index': sp.idx}
    if ro or it.option('explicit'):
      kw['read_only'] = ro
    n0 = len(it.ghost['events'])
    r, exc = call(it, it.getattr(cls, 'create_from_dir'), [SStr(D)], kw)
    if exc is not None:
      it.cover('failed')
      return
    it.cover('opened')
    check_manager(sp, it, r, 'P27', 'open', D, sp.fs, ro)
    f = r.fields
    sp.ob(it, 'P27', 'open: the metadata is the one read', f['_metadata'] is sp.msg)
    sp.ob(it, 'P27', 'open: the initial data is read by its own class', z3.And(
        it.tv(f['_initial_data_manager']) == InitAt(sp.Id, Join(D, z3.StringVal('initial_data')))))
    check_schema(sp, it, f, 'P27', 'open', Length(sp.Hs), InitAt(sp.Id, Join(D, z3.StringVal('initial_data'))), D)
    sp.ob(it, 'P27', 'open: the initial map is the one of the directory', it.tv(
        f['_initial_schema_node_name_to_data_bag_names']) == Loaded(
            Join(D, z3.StringVal('initial_schema_node_name_to_bag_names.kd'))))
  return harness


def check_manager(sp, it, r, prop, what, D, fs, ro):
  f = r.fields
  sp.ob(it, prop, f'{what}: works on its directory', it.str_t(f['_persistence_dir']) == D)
  sp.ob(it, prop, f'{what}: uses the file system given', f['_fs'] is fs)
  v = f['_is_read_only']
  sp.ob(it, prop, f'{what}: is read-only exactly when asked for', it.truth(v) == z3.BoolVal(ro) if not isinstance(v, bool) else v is ro)
  for k, n in (('_data_bag_manager', 'data_bags'), ('_schema_bag_manager', 'schema_bags'),
               ('_schema_node_name_to_data_bags_updates_manager', 'snn_to_data_bags_updates')):
    sp.ob(it, prop, f'{what}: its {n} are those of its directory', it.tv(f[k]) == MgrAt(Join(D, z3.StringVal(n))))


def check_schema(sp, it, f, prop, what, upto, initial, D):
  t = it.tv(f['_schema_helper'])
  ok = z3.is_app(t) and t.decl().eq(HelperOf)
  ok = ok and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(Bags2) and t.arg(0).arg(1).decl().eq(MinBag)
  sp.ob(it, prop, f'{what}: the schema is the initial schema with the schema bags', bool(ok))
  if not ok:
    return
  s, b = t.arg(0).arg(0), t.arg(0).arg(1)
  sp.ob(it, prop, f'{what}: starts from the initial schema', s == SchemaOf(initial))
  sp.ob(it, prop, f'{what}: the schema bags are those of its directory', b.arg(0) == MgrAt(Join(D, z3.StringVal('schema_bags'))))
  sp.is_names(it, prop, f'{what}, schema', b.arg(1), 'schema', upto)


class CopySpec(ReadSpec):
  pass


def h_copy(sp):
  def harness(it):
    m = sp.manager_obj(it)
    r, exc = call_method(it, m, 'get_readonly_copy', [])
    sp.ob(it, 'P27', 'copy: the original is unchanged', sp.same_man(it))
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P27', 'copy: fails only for an i/o error', sp.counted(it, 'faults') != 0)
      return
    it.cover('copy')
    check_manager(sp, it, r, 'P27', 'copy', sp.D, sp.fs, True)
    f = r.fields
    sp.ob(it, 'P27', 'copy: has metadata of its own', f['_metadata'] is not sp.msg)
    sp.ob(it, 'P27', 'copy: is at the same revision', sp.ser(it, f['_metadata']) == Ser(VerId(sp.V, sp.Id), sp.N0, sp.Hs))
    i0 = it.tv(sp.f0['_initial_data_manager'])
    sp.ob(it, 'P27', 'copy: has the same initial data', z3.Or(*[it.tv(f['_initial_data_manager']) == x for x in (i0, CopyOf(i0))]))
    for k in ('_schema_helper', '_initial_schema_node_name_to_data_bag_names'):
      sp.ob(it, 'P27', f'copy: the same {k}', it.tv(f[k]) == it.tv(sp.f0[k]))
  return harness


class ServeSpec(ReadSpec):
  """get_data_slice over the contracts of SchemaHelper (P25) and of the bag managers (P19)."""

  def __init__(self, prop):
    super().__init__(prop)
    self.needed = None

  def o_get_schema_node_names_needed_to(self, it, t, *, populate=None, populate_including_descendants=None):
    self.ob(it, 'P27', 'serve: the paths to populate are those given', populate is self.pop)
    self.ob(it, 'P27', 'serve: the paths to populate with descendants are those given', populate_including_descendants is self.inc)
    if not it.branch(it.fresh('valid', B)):
      it.throw(ValueError)
    s = it.new_set()
    s.items, s.dom = None, it.fresh('needed', SetArr)
    s.card = it.fresh('card', I)
    it.assume_q(s.card >= 0)
    self.needed = s.dom
    return s

  def loop_invariants(self, it, L):
    c = super().loop_invariants(it, L)
    if L.kind != 'for':
      return c
    j, m = z3.Ints('j m')
    k = z3.Const('k', Val)
    try:
      e = L.at(j)
    except Unsupported:
      return c
    if not isinstance(e, (SVal, SStr)):
      return c
    t = it.tv(e)
    src = pure_.source_patterns(it, L.at)(j)
    rng = z3.And(0 <= j, j < L.i)
    q = self.names_of(t)
    if q is None:
      return c
    f = L.frame
    seen = set()
    while f is not None and f.fn is not None:
      for n, o in f.locals.items():
        if isinstance(o, SetObj) and o.ref not in seen:
          seen.add(o.ref)
          A = setdom(it, o)
          c.append((f'{n}: has the bags of the nodes so far', FA([j, m], z3.Implies(
              z3.And(rng, 0 <= m, m < Length(q)), A[q[m]]), patterns=[z3.MultiPattern(p, q[m]) for p in src])))
          w = self.Wit(k)
          c.append((f'{n}: only bags of nodes', FA([k], z3.Implies(
              A[k], z3.And(self.inn(w), seqs.has(self.names_of(w), k))), patterns=[A[k]])))
      f = f.closure
    return c

  Wit = z3.Function('node_with_bag', Val, Val)
  NamesAt = z3.Function('bag_names_at', Val, Val)

  def names_of(self, t):
    return ToPy(self.NamesAt(t)) if getattr(self, 'inn', None) is not None else None


def h_serve(sp):
  def harness(it):
    m = sp.manager_obj(it)
    sp.inn = None
    sp.pop = SVal(sp.ref(it, 'populate')) if it.option('populate') else None
    sp.inc = SVal(sp.ref(it, 'including')) if it.option('including') else None
    f0 = it.fresh('bag', z3.ArraySort(SetArr, Val))
    seen = []

    def c_bag(it, fn, a, k):
      """Proved: P27 'bag'."""
      sp.fault(it)
      a = [x for x in a if x is not m]
      d = it.define('bag_names', sp.set_term(it, a[0] if a else k['schema_node_names']))
      return SVal(f0[d])
    sp.contracts[(MOD, 'DataSliceManager.internal_get_data_bag_for_schema_node_names')] = c_bag
    kw = {}
    if sp.pop is not None:
      kw['populate'] = sp.pop
    if sp.inc is not None:
      kw['populate_including_descendants'] = sp.inc
    r, exc = call_method(it, m, 'get_data_slice', [], kw)
    sp.ob(it, 'P27', 'serve: the manager is unchanged', sp.same_man(it))
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P27', 'serve: fails only with ValueError or an i/o error', z3.Or(
          sp.counted(it, 'faults') != 0, it.exc_matches(exc, ValueError)))
      return
    it.cover('served')
    root = InitRoot(it.tv(sp.f0['_initial_data_manager']))
    sp.ob(it, 'P27', 'serve: the root with the data of the nodes that are needed',
          it.tv(r) == Bags2(root, f0[sp.needed]) if sp.needed is not None else False)
  return harness


def h_bag(sp):
  def harness(it):
    m = sp.manager_obj(it)
    Q = it.fresh('names', SetArr)
    s = it.new_set()
    s.items, s.dom, s.card = None, Q, it.fresh('card', I)
    it.assume_q(s.card >= 0)
    x, k = z3.Consts('x k', Val)
    i = z3.Int('i')
    it.assume_q(FA([x], z3.Implies(Q[x], Val.is_str(x)), patterns=[Q[x]]))
    nm = sp.NamesAt
    W = sp.Wit
    # Wit chooses a node whose names contain a bag.
    e = ToPy(nm(x))[i]
    it.assume_q(FA([x, i], z3.Implies(z3.And(Q[x], 0 <= i, i < Length(ToPy(nm(x)))), z3.And(
        Q[W(e)], seqs.has(ToPy(nm(W(e))), e))), patterns=[e]))
    it.assume_q(FA([x], z3.Implies(Q[x], Val.is_ref(nm(x))), patterns=[nm(x)]))
    sp.inn = lambda t: Q[t]

    def c_names(it, fn, a, k):
      """Proved: P27 'index'.  Every node of the schema has a list of names
      (an invariant of the manager: decided by the driver)."""
      sp.fault(it)
      t = it.tv([y for y in a if y is not m][0] if len(a) > 1 or a and a[0] is not m else k['schema_node_name'])
      return SVal(nm(t))
    sp.contracts[(MOD, 'DataSliceManager._get_data_bag_names')] = c_names
    r, exc = call_method(it, m, 'internal_get_data_bag_for_schema_node_names', [s])
    sp.ob(it, 'P27', 'bag: the manager is unchanged', sp.same_man(it))
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P27', 'bag: fails only for an i/o error', sp.counted(it, 'faults') != 0)
      return
    it.cover('bag')
    t = it.tv(r)
    f = sp.f0
    q = t.arg(0) if z3.is_app(t) and t.decl().eq(Updated) else None
    sp.ob(it, 'P27', 'bag: a composition of three bags', q is not None and Length(q) == 3)
    if q is None:
      return
    im, dm, sm = it.tv(f['_initial_data_manager']), it.tv(f['_data_bag_manager']), it.tv(f['_schema_helper'])
    A, C, D = it.fresh('A', SetArr), it.fresh('C', SetArr), it.fresh('D', SetArr)

    def arg(i, F, n):
      # the set argument of the i-th bag
      for y in sub_apps(q):
        if y.decl().eq(F):
          return y
      return None
    ib, mb, sb = arg(0, InitBag, 2), arg(1, MinBag, 2), arg(2, SchemaBagF, 2)
    sp.ob(it, 'P27', 'bag: initial data, data bags and schema bag', ib is not None and mb is not None and sb is not None)
    if ib is None or mb is None or sb is None:
      return
    sp.ob(it, 'P27', 'bag: in this order', z3.And(q[0] == ib, q[1] == mb, q[2] == sb))
    sp.ob(it, 'P27', 'bag: of this manager', z3.And(ib.arg(0) == im, mb.arg(0) == dm, sb.arg(0) == sm))
    y, z, p0 = it.fresh('node', Val), it.fresh('bagname', Val), it.fresh('p', I)
    sp.ob(it, 'P27', 'bag: the initial data of the nodes it has', ib.arg(1)[y] == z3.And(Q[y], InitNames(im)[y]))
    sp.ob(it, 'P27', 'bag: the schema of the nodes', sb.arg(1)[y] == Q[y])
    sp.ob(it, 'P27', 'bag: all data bags of the nodes', z3.Implies(
        z3.And(Q[y], 0 <= p0, p0 < Length(ToPy(nm(y)))), mb.arg(1)[ToPy(nm(y))[p0]]))
    sp.ob(it, 'P27', 'bag: no data bags of other nodes', z3.Implies(
        mb.arg(1)[z], z3.And(Q[W(z)], seqs.has(ToPy(nm(W(z))), z))))
  return harness


def sub_apps(t):
  out, todo, seen = [], [t], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen or not z3.is_app(x):
      continue
    seen.add(x.get_id())
    out.append(x)
    todo += x.children()
  return out


def h_index(sp):
  def harness(it):
    m = sp.manager_obj(it)
    sp.inn = None
    n = it.fresh('node', Val)
    it.assume(Val.is_str(n))
    r, exc = call_method(it, m, '_get_data_bag_names', [SVal(n)])
    sp.ob(it, 'P27', 'index: the manager is unchanged', sp.same_man(it))
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P27', 'index: fails only for an i/o error', sp.counted(it, 'faults') != 0)
      return
    f = sp.f0
    if r is None:
      it.cover('unknown')
      return
    it.cover('known')
    t = it.tv(r)
    ok = z3.is_app(t) and t.decl().eq(GetItem) and t.arg(0).decl().eq(Bags2) and t.arg(0).arg(1).decl().eq(MinBag)
    sp.ob(it, 'P27', 'index: an item of the updated map', bool(ok))
    if not ok:
      return
    d = t.arg(0)
    sp.ob(it, 'P27', 'index: the names of the node asked for', z3.And(t.arg(1) == n, HasF(t)))
    sp.ob(it, 'P27', 'index: in the initial map with the map bags', z3.And(
        d.arg(0) == it.tv(f['_initial_schema_node_name_to_data_bag_names']),
        d.arg(1).arg(0) == it.tv(f['_schema_node_name_to_data_bags_updates_manager'])))
    sp.is_names(it, 'P27', 'index', d.arg(1).arg(1), 'map', Length(sp.Hs))
  return harness


# ------------------------------------------------------------- P28: branches --

class BranchSpec(ManSpec):

  def __init__(self, prop):
    super().__init__(prop)
    self.contracts[(MOD, '_persist_metadata')] = self.c_persist
    self.contracts[(MOD, '_get_dir_for_new_branch')] = self.c_dir
    self.persisted = None
    self.claimed = None

  def c_dir(self, it, fn, a, k):
    """Proved: P28 'claim'."""
    args = dict(zip(('persistence_dir', 'fs'), a), **k)
    self.ob(it, 'P28', 'branch: a directory below the one of the manager is claimed',
            z3.And(it.str_t(args['persistence_dir']) == self.D, args['fs'] is self.out_fs))
    self.effect(it, 'claim', None, args['fs'])
    self.OUT = self.claimed = it.fresh('claimed', S)
    return SStr(self.claimed)

  def c_persist(self, it, fn, a, k):
    """Proved: P26 'persist'."""
    args = dict(zip(('fs', 'persistence_dir', 'metadata'), a), **k)
    self.effect(it, 'commit', it.str_t(args['persistence_dir']), args['fs'])
    self.count(it, 'commits')
    self.persisted = (it.str_t(args['persistence_dir']), self.ser(it, args['metadata']), args['metadata'])
    return None

  def on_mutate(self, it, what, p):
    self.ob(it, 'P28', f'branch: a revision that does not exist writes nothing ({what})', self.valid)
    self.ob(it, 'P28', f'branch: only the output directory is written ({what})', z3.And(
        p == self.OUT, it.ghost['op_fs'] is self.out_fs))

  def on_effect(self, it, what, d=None, fs=None, *args):
    self.ob(it, 'P28', f'branch: a revision that does not exist writes nothing ({what})', self.valid)
    self.ob(it, 'P28', f'branch: through the file system of the branch ({what})', fs is self.out_fs)
    if self.case == 'occupied':
      self.ob(it, 'P28', f'branch: nothing is written to a place in use ({what})', False)
    if d is not None:
      self.ob(it, 'P28', f'branch: only the output directory is written ({what})', z3.Or(
          d == self.OUT, *[d == Join(self.OUT, z3.StringVal(x)) for x in (
              'initial_data', 'data_bags', 'schema_bags', 'snn_to_data_bags_updates',
              'initial_schema_node_name_to_bag_names.kd')]))


def h_branch(case, fs_given, full):
  def make(sp):
    def harness(it):
      m = sp.manager_obj(it)
      sp.case = case
      sp.persisted = sp.claimed = None
      fs0 = it.ghost['fs']
      sp.out_fs = sp.new_fs(it) if fs_given else None
      given = sp.out_fs
      sp.out_fs = given or sp.fs
      kw = {}
      args = []
      if case == 'claim':
        sp.OUT = it.fresh('none', S)
      else:
        sp.OUT = it.fresh('out', S)
        args = [SStr(sp.OUT)]
        it.assume_q(DirOf(sp.OUT) != sp.OUT)
        if case == 'occupied':
          w = it.fresh('occupant', S)
          it.ghost['tracked'] = [sp.OUT, w]
          it.assume_q(z3.And(fs0[w] != NONE, DirOf(w) == sp.OUT, Join(sp.OUT, BaseOf(w)) == w, Visible(BaseOf(w)),
                             it.ghost['keep'][w], it.ghost['keep'][sp.OUT], fs0[sp.OUT] != NONE))
      n = Length(sp.Hs)
      i = it.fresh('index', I)
      if full:
        kw['revision_history_index'] = SInt(i)
      else:
        it.assume(i == -1)
      sp.valid = z3.And(-n <= i, i < n)
      if given is not None:
        kw['fs'] = given
      desc = None
      if full:
        desc = it.fresh('desc', S)
        kw['description'] = SStr(desc)
      r, exc = call_method(it, m, 'branch', args, kw)
      sp.ob(it, 'P28', 'branch: the original is unchanged', sp.same_man(it))
      k = z3.If(i < 0, n + i, i)
      no_fault = sp.counted(it, 'faults') == 0
      if exc is not None:
        it.cover('refused')
        if case != 'occupied':
          sp.ob(it, 'P28', 'branch: fails only for an i/o error, a bad index or a place in use',
                z3.Or(z3.Not(no_fault), z3.Not(sp.valid), case == 'any'))
        sp.ob(it, 'P28', 'branch: a bad index or a place in use is a ValueError', z3.Or(
            z3.Not(no_fault), it.exc_matches(exc, ValueError)))
        sp.ob(it, 'P28', 'branch: a failure commits nothing', sp.counted(it, 'commits') == 0)
        return
      it.cover('branch')
      sp.ob(it, 'P28', 'branch: only at a revision that exists', sp.valid)
      sp.ob(it, 'P28', 'branch: a place in use is refused', case != 'occupied')
      OUT = sp.OUT
      check_manager(sp, it, r, 'P28', 'branch', OUT, sp.out_fs, False)
      f = r.fields
      ev = it.ghost['events']
      im = it.tv(sp.f0['_initial_data_manager'])
      i1 = it.tv(f['_initial_data_manager'])
      sp.ob(it, 'P28', 'branch: has the initial data of the original', z3.Or(i1 == im, i1 == CopyOf(im)))
      sp.ob(it, 'P28', 'branch: has the initial map of the original', it.tv(
          f['_initial_schema_node_name_to_data_bag_names']) == it.tv(sp.f0['_initial_schema_node_name_to_data_bag_names']))
      check_schema(sp, it, f, 'P28', 'branch', k + 1, i1, OUT)
      last = [e[0] for e in ev]
      sp.ob(it, 'P28', 'branch: the commit comes after all other files', last.count('commit') == 1 and all(
          last.index(x) < last.index('commit') for x in ('serialize', 'dump', 'create_branch') if x in last))
      find = lambda what, d: [e for e in ev if e[0] == what and it.entails(
          e[1] == Join(OUT, z3.StringVal(d)), 2000, True) == 'unsat']
      s = find('serialize', 'initial_data')
      sp.ob(it, 'P28', 'branch: the initial data is written to it', len(s) == 1 and s[0][3] == im)
      s = find('dump', 'initial_schema_node_name_to_bag_names.kd')
      sp.ob(it, 'P28', 'branch: the initial map is written to it', len(s) == 1 and s[0][3] == it.tv(
          sp.f0['_initial_schema_node_name_to_data_bag_names']))
      for nm, d, fld in (('data', 'data_bags', '_data_bag_manager'), ('schema', 'schema_bags', '_schema_bag_manager'),
                         ('map', 'snn_to_data_bags_updates', '_schema_node_name_to_data_bags_updates_manager')):
        s = find('create_branch', d)
        sp.ob(it, 'P28', f'branch: one branch of the {nm} bags', len(s) == 1 and s[0][3] == it.tv(sp.f0[fld]))
        if len(s) == 1:
          sp.is_names(it, 'P28', 'branch', s[0][4], nm, k + 1)
      if sp.persisted is None:
        sp.ob(it, 'P28', 'branch: is committed', False)
        return
      d, data, msg = sp.persisted
      sp.ob(it, 'P28', 'branch: is committed in its directory', d == OUT)
      sp.ob(it, 'P28', 'branch: holds what it committed', data == sp.ser(it, f['_metadata']))
      V, N, E = sp.state(it, msg)
      e = E[0]
      sp.ob(it, 'P28', 'branch: starts a history of its own', z3.And(N == 0, Length(E) == 1))
      sp.ob(it, 'P28', 'branch: keeps the kind of the initial data', IdOf(V) == sp.Id)
      sp.ob(it, 'P28', 'branch: the history says where it comes from', z3.And(
          RKind(e) == z3.StringVal('branch'), RParent(e) == sp.D, RIdx(e) == k,
          RDesc(e) == (desc if desc is not None else z3.StringVal(''))))
      for nm, _, F in NAMES:
        x, i0, m0, p0 = it.fresh('name', Val), it.fresh('rev', I), it.fresh('pos', I), it.fresh('pos2', I)
        W = First[nm]
        y = F(sp.Hs[i0])[m0]
        sp.ob(it, 'P28', f'branch: its history has all {nm} bags', z3.Implies(
            z3.And(0 <= i0, i0 <= k, 0 <= m0, m0 < Length(F(sp.Hs[i0]))), seqs.has(F(e), y)))
        x = F(e)[p0]
        sp.ob(it, 'P28', f'branch: its history has no other {nm} bags', z3.Implies(
            z3.And(0 <= p0, p0 < Length(F(e))), z3.And(0 <= W(x), W(x) <= k, seqs.has(F(sp.Hs[W(x)]), x))))
    return harness
  return make


class ClaimSpec(ManSpec):
  """Claiming a directory name, while others claim names too."""

  def __init__(self, prop):
    super().__init__(prop)
    self.contracts[(MOD, '_get_uuid_and_short_form')] = self.c_ids
    self.renamed = None

  def c_ids(self, it, fn, a, k):
    """A fresh uuid and any short name (collisions included)."""
    o = self.m_uuid(it, [], {})
    u, x = o.uuid, it.fresh('short_form', S)
    d = z3.Const('d', S)
    it.assume_q(z3.And(Own(u) == u, z3.Not(IsFinal(u)), x != u))
    it.assume_q(FA([d], z3.And(BaseOf(Join(d, u)) == u, DirOf(Join(d, u)) == d), patterns=[Join(d, u)]))
    r = it.new_obj(ExtRef('ids'))
    r.fields.update(uuid=SStr(u), short_form=SStr(x))
    return r

  def branches(self):
    return Join(self.D, z3.StringVal('branches'))

  def on_mutate(self, it, what, p):
    B = self.branches()
    if what == 'make_dirs':
      ok = z3.Or(p == B, p == self.claimed_dir) if self.claimed_dir is not None else p == B
      self.ob(it, 'P28', 'claim: only the directory of the branches and the claimed one are made', ok)
    elif what == 'rename':
      self.ob(it, 'P28', 'claim: names are taken in the directory of the branches', z3.is_app(p) and p.decl().eq(Join) and p.arg(0) == B)
    else:
      self.ob(it, 'P28', f'claim: only its own file is touched ({what})', self.own_path(it, p))

  def on_commit(self, it, a, b):
    self.renamed = b
    x = b.arg(1) if z3.is_app(b) and b.decl().eq(Join) else None
    e = it.ghost.get('tparts', {}).get(x.get_id()) if x is not None else None
    name = None
    if e is not None and len(e[1]) == 2 and not isinstance(e[1][0], str) and e[1][1] == '.txt':
      name = e[1][0][1]
    self.ob(it, 'P28', 'claim: the file that says a name is taken is the name with .txt', name is not None)
    if name is not None:
      self.claimed_dir = Join(self.branches(), name)
      # nobody removes the files that say which names are taken
      it.ghost['keep'] = it.define('keep', z3.Store(it.ghost['keep'], b, z3.BoolVal(True)))
      it.ghost['tracked'] = [b]

  def loop_invariants(self, it, L):
    return [('nothing is claimed yet', self.counted(it, 'commits') == 0),
            ('faults are counted', self.counted(it, 'faults') >= 0)]


def h_claim(sp):
  def harness(it):
    sp.setup(it)
    sp.D = it.fresh('dir', S)
    sp.renamed = sp.claimed_dir = None
    fs = sp.new_fs(it)
    r, exc = call(it, modf(it, '_get_dir_for_new_branch'), [SStr(sp.D), fs])
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P28', 'claim: fails only for an i/o error', sp.counted(it, 'faults') != 0)
      return
    it.cover('claimed')
    sp.ob(it, 'P28', 'claim: exactly one name is taken', sp.counted(it, 'commits') == 1)
    sp.ob(it, 'P28', 'claim: the directory of the name that was taken', it.str_t(r) == sp.claimed_dir
          if sp.claimed_dir is not None else False)
    sp.ob(it, 'P28', 'claim: the directory is there', it.ghost['fs'][it.str_t(r)] != NONE)
    sp.ob(it, 'P28', 'claim: the name stays taken', it.ghost['fs'][sp.renamed] != NONE if sp.renamed is not None else False)
  return harness


class HistorySpec(ManSpec):
  """get_revision_history: every entry, in order, as what it is."""

  KINDS = {'creation': 'CreationMetadata', 'attribute_update': 'AttributeUpdateMetadata', 'branch': 'BranchMetadata'}
  Shown = z3.Function('entry_shown', Val, Val, Val, Val)

  def reify(self, it, v):
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name in self.KINDS.values() and v.cls.module.name == MOD:
      self.check_entry(it, v)
      e = self.ref(it, 'entry')
      it.assume_q(e == self.Shown(self.cur, self.tz, self.fmt))
      return e
    return super().reify(it, v)

  cur = None

  def opaque_attr(self, it, v, name, default):
    if name == 'WhichOneof':
      self.cur = v.t
    return super().opaque_attr(it, v, name, default)

  def check_entry(self, it, o):
    """The fields of an entry are those of the revision looked at last."""
    t, f = self.cur, o.fields
    k = [k for k, n in self.KINDS.items() if n == o.cls.name][0]
    s = lambda x: it.str_t(it.unopaque(x) if isinstance(x, SVal) else x)
    c = [RKind(t) == z3.StringVal(k), s(f['description']) == RDesc(t),
         it.tv(f['timestamp']) == Stamp(Stamp(RTime(t), self.tz, NONE), NONE, self.fmt)]
    if k == 'attribute_update':
      c += [s(f['at_path']) == RPath(t), s(f['attr_name']) == RAttr(t)]
    elif k == 'branch':
      c += [s(f['parent_persistence_directory']) == RParent(t), it.int_t(f['parent_revision_history_index']) == RIdx(t)]
    self.ob(it, 'P27', 'history: an entry shows its revision', z3.And(*c))

  def loop_invariants(self, it, L):
    c = super().loop_invariants(it, L)
    if L.kind == 'for':
      j = z3.Int('j')
      for n, o in list(L.frame.locals.items()):
        if isinstance(o, ListObj):
          s = it.seq_term(o)
          c.append((f'{n}: an entry per revision so far', Length(s) == L.i))
          c.append((f'{n}: in order', FA([j], z3.Implies(z3.And(0 <= j, j < L.i), s[j] == self.Shown(
              self.Hs[j], self.tz, self.fmt)), patterns=[s[j]])))
    return c


def h_history(sp):
  def harness(it):
    m = sp.manager_obj(it)
    i = z3.Int('i')
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(sp.Hs)), z3.Or(
        *[RKind(sp.Hs[i]) == z3.StringVal(k) for k in sp.KINDS])), patterns=[sp.Hs[i]]))
    kw = {}
    sp.tz, sp.fmt = NONE, Val.str(z3.StringVal('%Y-%m-%d %H:%M:%S %Z'))
    if it.option('given'):
      tz, fmt = sp.ref(it, 'tz'), it.fresh('format', S)
      kw = {'tz': SVal(tz), 'timestamp_format': SStr(fmt)}
      sp.tz, sp.fmt = tz, Val.str(fmt)
    r, exc = call_method(it, m, 'get_revision_history', [], kw)
    sp.ob(it, 'P27', 'history: the manager is unchanged', sp.same_man(it))
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P27', 'history: does not fail', False)
      return
    it.cover('history')
    s = it.seq_term(r)
    k = it.fresh('k', I)
    sp.ob(it, 'P27', 'history: one entry per revision', Length(s) == Length(sp.Hs))
    sp.ob(it, 'P27', 'history: in order', z3.Implies(z3.And(0 <= k, k < Length(s)), s[k] == sp.Shown(
        sp.Hs[k], sp.tz, sp.fmt)))
  return harness


PROOFS = {
    'P26': {'persist': (lambda: PersistSpec('P26'), h_persist)},
    'P27': {
        'read metadata': (lambda: ReadSpec('P27'), h_read_metadata),
        'open': (lambda: OpenSpec('P27'), h_open),
        'copy': (lambda: CopySpec('P27'), h_copy),
        'serve': (lambda: ServeSpec('P27'), h_serve),
        'bag': (lambda: ServeSpec('P27'), h_bag),
        'index': (lambda: ServeSpec('P27'), h_index),
        'history': (lambda: HistorySpec('P27'), h_history),
    },
    'P28': {
        f'branch: {c}{", fs given" if g else ""}{", index given" if d else ""}': (
            lambda: BranchSpec('P28'), h_branch(c, g, d))
        for c in ('any', 'claim', 'occupied') for g in (False, True) for d in (False, True)
    } | {'claim': (lambda: ClaimSpec('P28'), h_claim)},
}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h


_T = ['z3, cvc5 and the VC generator pyvc/',
      'protobuf messages: fields, CopyFrom, deepcopy, SerializeToString / FromString are inverse',
      'kd.s11n.dump / load, kd.has, Koda dicts and .updated (opaque)',
      'DataBagManager by its contracts (P16..P21), SchemaHelper by its own (P24, P25)',
      'os.path.join, basename, glob, uuid1 (fsmodel.py)']
_A = ['update numbers below 10^12, unique uuids, atomic rename, canonical paths, only managers write into the directory']
TRUSTED = {p: list(_T) for p in ('P26', 'P27', 'P28')}
ASSUMPTIONS = {
    'P26': _A + ['the body of DataSliceManager.update before its commit is decided by the executable contract on generated '
                 'histories only: bounded, not counted as proved'],
    'P27': _A + ['every revision names its bags once: the map of node names to bags holds what update() wrote (bounded)',
                 'composite initial data is decided by the executable contract only: bounded'],
    'P28': _A + ['that the copies DataBagManager.create_branch makes are faithful is P20'],
}
