"""Contracts for koladata.ext.storage.data_bag_manager (P16..P21)."""

import z3

from pyvc.core import *
from pyvc import pure as pure_
from pyvc import builtins_model as bm
from contracts.fsmodel import *
from contracts import fsmodel

MOD = 'koladata.ext.storage.data_bag_manager'
PB = 'koladata.ext.storage.data_bag_manager_metadata_pb2'
BUDGET_S = 400

# Records (metadata entries and bags to add).
NameF = z3.Function('rec_name', Val, S)
FileF = z3.Function('rec_filename', Val, S)
HasDirF = z3.Function('rec_has_directory', Val, z3.BoolSort())
DirF = z3.Function('rec_directory', Val, S)
DepsF = z3.Function('rec_dependencies', Val, SeqVal)
CustF = z3.Function('rec_custom_metadata', Val, Val)
BagF = z3.Function('rec_bag', Val, Val)
# Serialised bytes.
SerBag = z3.Function('bag_bytes', Val, Val)
UnBag = z3.Function('bag_of_bytes', Val, Val)
Ser = z3.Function('metadata_bytes', S, z3.IntSort(), SeqVal, Val)
SerV = z3.Function('bytes_version', Val, S)
SerN = z3.Function('bytes_number', Val, z3.IntSort())
SerE = z3.Function('bytes_entries', Val, SeqVal)
# Ghosts.
BagAt = z3.Function('bag_in_file', S, Val)
IsBag = z3.Function('is_data_bag', Val, z3.BoolSort())
NIdx = z3.Function('index_of_name', Val, z3.IntSort())
DPos = z3.Function('dep_position', Val, Val, z3.IntSort())
BIdx = z3.Function('first_index_in_batch', Val, z3.IntSort())
Updated = z3.Function('bags_updated', SeqVal, Val)

SetArr = z3.ArraySort(Val, z3.BoolSort())
FINAL_KEY = (FINAL_RE[0], ('z',), FINAL_RE[2])


def nv(e):
  return Val.str(NameF(e))


def setdom(it, s):
  return it.set_arr(s)


def dictdom(it, d):
  if d.items is None:
    return d.dom, d.val
  dom, val = z3.K(Val, z3.BoolVal(False)), z3.K(Val, NONE)
  for k, v in d.items:
    kt = it.keyterm(k)
    dom = z3.Store(dom, kt, z3.BoolVal(True))
    val = z3.Store(val, kt, it.tv(v))
  return dom, val


class DbmSpec(FsSpec):

  must_cover = ()

  def __init__(self, prop):
    super().__init__(prop)
    for x in ('koladata.kd', PB, 'google.protobuf.any_pb2', 'google.protobuf',
              'koladata.ext.storage.global_cache_lib', 'arolla', 'arolla.arolla',
              'koladata.types.data_bag', 'koladata.types.data_slice',
              'koladata.types.extension_type_registry',
              'koladata.types.jagged_shape', 'koladata.file_io.file_io',
              'koladata.types', 'koladata.file_io'):
      self.externals.add(x)
    B = Builtin
    self.models['koladata.kd.s11n.dump'] = B('kd.s11n.dump', lambda it, a, k: it.call(
        it.modname(it.prog.module('koladata.functions.s11n'), 'dump'), a, k))
    self.models['koladata.kd.s11n.load'] = B('kd.s11n.load', lambda it, a, k: it.call(
        it.modname(it.prog.module('koladata.functions.s11n'), 'load'), a, k))
    self.models['koladata.kd.file_io.get_default_file_system_interaction'] = B(
        'get_default_file_system_interaction', lambda it, a, k: self.new_fs(it))
    self.models['koladata.file_io.file_io.get_default_file_system_interaction'] = B(
        'get_default_file_system_interaction', lambda it, a, k: self.new_fs(it))
    self.models['koladata.kd.bags.updated'] = B('kd.bags.updated', self.m_updated)
    self.models['koladata.ext.storage.global_cache_lib.get_global_cache'] = B(
        'get_global_cache', lambda it, a, k: it.ghost.get('cache'))
    self.models['koladata.ext.storage.global_cache_lib.CacheEntryMetadata'] = B(
        'CacheEntryMetadata', lambda it, a, k: it.new_obj(ExtRef('CacheEntryMetadata')))
    c = self.contracts
    c[('koladata.functions.s11n', 'dumps')] = lambda it, fn, a, k: SVal(SerBag(it.tv(a[0])))
    c[('koladata.functions.s11n', 'loads')] = lambda it, fn, a, k: SVal(UnBag(it.tv(a[0])))

  # -- vocabulary --
  def setup(self, it):
    self.init_fs(it)
    b = z3.Const('b', Val)
    x = z3.Const('x', S)
    v, n, e = z3.Const('v', S), z3.Int('n'), z3.Const('e', SeqVal)
    it.assume_q(FA([b], z3.And(UnBag(SerBag(b)) == b, SerBag(b) != NONE), patterns=[SerBag(b)]))
    it.assume_q(FA([v, n, e], z3.And(
        SerV(Ser(v, n, e)) == v, SerN(Ser(v, n, e)) == n, SerE(Ser(v, n, e)) == e,
        Ser(v, n, e) != NONE), patterns=[Ser(v, n, e)]))
    it.assume_q(FA([x], z3.And(IsBag(BagAt(x)), Val.is_ref(BagAt(x))), patterns=[BagAt(x)]))
    it.assume_q(FA([x], z3.Implies(IsFinal(x), z3.And(Visible(x), 0 <= Num(x), Num(x) < MAXN)),
                   patterns=[IsFinal(x)]))
    self.canon = self.tpl_fn(it, FINAL_KEY)

  def final_path(self, d, n):
    return Join(d, self.canon(Z12(n)))

  def is_name(self, it, k):
    E, N = self.E, Length(self.E)
    return z3.And(0 <= NIdx(k), NIdx(k) < N, nv(E[NIdx(k)]) == k)

  def entry(self, k):
    return self.E[NIdx(k)]

  def path_of(self, e):
    return z3.If(HasDirF(e), Join(DirF(e), FileF(e)), Join(self.D, FileF(e)))

  def bag_of_name(self, k):
    return BagAt(FileF(self.entry(k)))

  def manager(self, it, cache='fork', number=None):
    """A manager in an arbitrary committed state, whose directory may have
    been updated by others since."""
    self.setup(it)
    E = it.fresh('entries', SeqVal)
    self.E = E
    self.N0 = it.fresh('update_number', z3.IntSort())
    self.V = it.fresh('version', S)
    self.D = it.fresh('dir', S)
    N = Length(E)
    i, k = z3.Ints('i k')
    it.assume(z3.And(self.N0 >= 0, self.N0 < MAXN - 1))
    # names are unique
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(
        NIdx(nv(E[i])) == i, Val.is_ref(E[i]))), patterns=[E[i]]))
    # dependencies are earlier bags
    d = DepsF(E[i])[k]
    it.assume_q(FA([i, k], z3.Implies(
        z3.And(0 <= i, i < N, 0 <= k, k < Length(DepsF(E[i]))),
        z3.And(0 <= NIdx(d), NIdx(d) < i, nv(E[NIdx(d)]) == d, Val.is_str(d))), patterns=[d]))
    # committed files hold their bags, and stay
    fs, keep = it.ghost['fs'], it.ghost['keep']
    self.E0 = E
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(
        fs[self.path_of(E[i])] == SerBag(BagAt(FileF(E[i]))),
        keep[self.path_of(E[i])],
        z3.Not(IsFinal(FileF(E[i]))))), patterns=[FileF(E[i])]))
    # what this manager believes was committed
    p = self.final_path(self.D, self.N0)
    it.assume_q(fs[p] == Ser(self.V, self.N0, E))
    m = it.prog.module(MOD)
    cls = it.modname(m, 'DataBagManager')
    o = it.new_obj(cls)
    o.fields['_persistence_dir'] = SStr(self.D)
    o.fields['_fs'] = self.new_fs(it)
    msg = self.new_msg(it, 'DataBagManagerMetadata')
    msg.fields['version'] = SStr(self.V)
    msg.fields['metadata_update_number'] = SInt(self.N0)
    msg.fields['data_bag_metadata'].items = None
    msg.fields['data_bag_metadata'].seq = E
    o.fields['_metadata'] = msg
    cv = it.new_obj(ExtRef('Cache'))
    it.ghost['cache'] = cv
    if cache == 'fork':
      o.fields['bag_cache'] = cv if it.option('cache') else None
    else:
      o.fields['bag_cache'] = cv if cache else None
    self.man, self.msg = o, msg
    self.mark = it.clock
    return o

  # -- messages --
  def new_msg(self, it, name):
    o = it.new_obj(ExtRef(PB + '.' + name))
    o.isnew = True
    if name == 'DataBagManagerMetadata':
      o.fields['version'] = ''
      o.fields['metadata_update_number'] = 0
      l = it.new_list([])
      l.entries = True
      o.fields['data_bag_metadata'] = l
    else:
      o.fields['name'] = ''
      o.fields['filename'] = ''
      l = it.new_list([])
      o.fields['dependencies'] = l
      o.fields['#custom'] = NONE
      o.fields['#hasdir'] = False
      o.fields['directory'] = ''
    return o

  def msg_kind(self, o):
    if isinstance(o, Obj) and isinstance(o.cls, ExtRef) and o.cls.name.startswith(PB + '.'):
      return o.cls.name[len(PB) + 1:]
    return None

  def call_ext(self, it, fn, args, kwargs):
    if fn.name in (PB + '.DataBagManagerMetadata', PB + '.DataBagMetadata'):
      if args:
        it.throw(TypeError)
      o = self.new_msg(it, fn.name[len(PB) + 1:])
      for k, v in kwargs.items():
        self.msg_set(it, o, k, v, init=True)
      return o
    return UNDEF

  def msg_set(self, it, o, k, v, init=False):
    if k not in o.fields or k.startswith('#'):
      if k == 'custom_metadata' and init:
        if v is not None:
          o.fields['#custom'] = it.tv(v)
        return
      it.throw(ValueError, 'no such field')
    f = o.fields[k]
    if isinstance(f, ListObj):
      if not init:
        it.throw(AttributeError)
      f.items, f.seq = [], None
      bm.list_extend(it, f, v)
      return
    if k == 'directory':
      o.fields['#hasdir'] = True
    o.fields[k] = v

  def on_write(self, it, obj, name, val):
    if name == 'directory' and self.msg_kind(obj) == 'DataBagMetadata':
      obj.fields['#hasdir'] = True

  def obj_attr(self, it, o, name):
    k = self.msg_kind(o)
    if k is not None:
      if name == 'CopyFrom' or name == 'MergeFrom':
        return Builtin('Message.' + name, lambda it, a, kw: self.copy_from(it, o, a[0], name))
      if name == 'HasField':
        return Builtin('Message.HasField', lambda it, a, kw: self.has_field(it, o, a[0]))
      if name == 'SerializeToString':
        return Builtin('Message.SerializeToString', lambda it, a, kw: self.serialize(it, o))
      if name == 'custom_metadata' and k == 'DataBagMetadata':
        p = it.new_obj(ExtRef('AnyField'))
        p.owner = o
        return p
      return UNDEF
    c = o.cls.name if isinstance(o.cls, ExtRef) else None
    if c == 'AnyField' and name in ('CopyFrom', 'MergeFrom'):
      def f(it, a, kw):
        v = it.tv(a[0]) if not (isinstance(a[0], Obj) and a[0].cls == ExtRef('AnyField')) else a[0].owner.fields['#custom']
        it.assume_q(v != NONE)
        o.owner.fields['#custom'] = v
        it.wr(o.owner, '#custom')
      return Builtin('Any.CopyFrom', f)
    if c == 'Cache':
      if name == 'get':
        return Builtin('cache.get', lambda it, a, kw: self.cache_get(it, *a, **kw))
      if name == 'set':
        return Builtin('cache.set', lambda it, a, kw: self.cache_set(it, *a, **kw))
    return super().obj_attr(it, o, name)

  def copy_from(self, it, o, src, how):
    k = self.msg_kind(o)
    if how == 'MergeFrom' and not getattr(o, 'isnew', False):
      raise Unsupported('MergeFrom')
    o.isnew = False
    if k == 'DataBagManagerMetadata':
      for n in ('version', 'metadata_update_number'):
        o.fields[n] = src.fields[n]
        it.wr(o, n)
      l, s = o.fields['data_bag_metadata'], src.fields['data_bag_metadata']
      l.items = None if s.items is None else list(s.items)
      l.seq = s.seq
      it.wr(l, '<content>')
      return None
    if isinstance(src, Obj):
      src = SVal(self.reify(it, src))
    t = src.t
    o.fields['name'] = SStr(NameF(t))
    o.fields['filename'] = SStr(FileF(t))
    o.fields['directory'] = SStr(DirF(t))
    o.fields['#hasdir'] = SBool(HasDirF(t))
    o.fields['#custom'] = CustF(t)
    l = o.fields['dependencies']
    l.items, l.seq = None, DepsF(t)
    return None

  def has_field(self, it, o, f):
    if f == 'directory':
      h = o.fields['#hasdir']
      return h
    if f == 'custom_metadata':
      return SBool(o.fields['#custom'] != NONE)
    raise Unsupported(f'HasField({f})')

  def serialize(self, it, o):
    if self.msg_kind(o) != 'DataBagManagerMetadata':
      raise Unsupported('serialize')
    return SVal(Ser(it.str_t(o.fields['version']), it.int_t(o.fields['metadata_update_number']),
                    it.seq_term(o.fields['data_bag_metadata'])))

  def from_string(self, it, a, k):
    t = it.tv(a[0])
    o = self.new_msg(it, 'DataBagManagerMetadata')
    o.fields['version'] = SStr(SerV(t))
    o.fields['metadata_update_number'] = SInt(SerN(t))
    l = o.fields['data_bag_metadata']
    l.items, l.seq = None, SerE(t)
    it.ghost.setdefault('parsed', []).append((o, t))
    return o

  def model(self, it, dotted):
    if dotted == PB + '.DataBagManagerMetadata.FromString':
      return Builtin('DataBagManagerMetadata.FromString', self.from_string)
    return super().model(it, dotted)

  def reify(self, it, v):
    k = self.msg_kind(v) if isinstance(v, Obj) else None
    if k == 'DataBagMetadata':
      e = it.fresh('entry', Val)
      f = v.fields
      h = f['#hasdir']
      it.assume_q(z3.And(
          Val.is_ref(e),
          NameF(e) == it.str_t(it.unopaque(f['name'])), FileF(e) == it.str_t(it.unopaque(f['filename'])),
          HasDirF(e) == (h.t if isinstance(h, SBool) else z3.BoolVal(h)),
          DirF(e) == it.str_t(it.unopaque(f['directory'])), CustF(e) == f['#custom'],
          DepsF(e) == it.seq_term(f['dependencies'])))
      return e
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name == 'BagToAdd':
      e = it.fresh('bag_to_add', Val)
      f = v.fields
      it.assume_q(z3.And(
          Val.is_ref(e),
          NameF(e) == it.str_t(it.unopaque(f['bag_name'])), BagF(e) == it.tv(f['bag']),
          CustF(e) == it.tv(f['custom_metadata']), DepsF(e) == it.seq_term(f['dependencies'])))
      return e
    if isinstance(v, STup):
      return Val.tup(v.t)
    return super().reify(it, v)

  _REC = {
      'name': lambda t: SStr(NameF(t)), 'bag_name': lambda t: SStr(NameF(t)),
      'filename': lambda t: SStr(FileF(t)), 'directory': lambda t: SStr(DirF(t)),
      'dependencies': lambda t: STup(DepsF(t)), 'bag': lambda t: SVal(BagF(t)),
      'custom_metadata': lambda t: SVal(CustF(t)),
  }

  def opaque_attr(self, it, v, name, default):
    if name in self._REC:
      return self._REC[name](v.t)
    if name == 'HasField':
      def f(it, a, k):
        if a[0] == 'directory':
          return SBool(HasDirF(v.t))
        if a[0] == 'custom_metadata':
          return SBool(CustF(v.t) != NONE)
        raise Unsupported('HasField')
      return Builtin('Message.HasField', f)
    if name in ('result', 'exception', 'done', 'cancelled'):
      return self.fut_attr(it, v.t, name)
    if name == 'get_approx_byte_size':
      return Builtin('DataBag.get_approx_byte_size', lambda it, a, k: SInt(it.fresh('size', z3.IntSort())))
    return UNDEF

  def fut_value(self, it, t):
    return SVal(self.FutVal(t))

  def isinstance_(self, it, v, c):
    if isinstance(c, ExtRef) and c.name == 'koladata.kd.types.DataBag' and isinstance(v, SVal):
      return SBool(IsBag(v.t)) if getattr(self, 'sbool_isinstance', True) else IsBag(v.t)
    return UNDEF

  def m_updated(self, it, a, k):
    if len(a) == 1 and type(a[0]).__name__ == '_StarSeq':
      return SVal(Updated(a[0].seq))
    return SVal(Updated(it.seq_of(a)))

  # -- the cache: entry for key k is absent or the bag of the file k names --
  def cache_get(self, it, key):
    v = it.fresh('cached', Val)
    it.assume_q(z3.Or(v == NONE, v == BagAt(LastSeg(it.str_t(key)))))
    return SVal(v)

  def cache_set(self, it, key, value, metadata=None):
    if it.pure:
      raise pure_.NotPure('cache.set')
    self.ob(it, 'P19', 'a cache entry always holds the bag of the file named by its key',
            it.tv(value) == BagAt(LastSeg(it.str_t(key))))
    return value

  def same_metadata(self, it):
    m = self.man.fields['_metadata']
    if m is not self.msg:
      return z3.BoolVal(False)
    return z3.And(
        it.int_t(m.fields['metadata_update_number']) == self.N0,
        it.str_t(m.fields['version']) == self.V,
        it.seq_term(m.fields['data_bag_metadata']) == self.E)

  # -- loop invariants --
  def containers(self, it, L):
    """(name, object) of lists/dicts/sets reachable from the loop's frame."""
    out, seen = [], set()
    f = L.frame
    while f is not None and f.fn is not None:
      for n, v in f.locals.items():
        if isinstance(v, (ListObj, DictObj, SetObj, SetDict)) and v.ref not in seen:
          seen.add(v.ref)
          out.append((n, v))
        if self.msg_kind(v) == 'DataBagManagerMetadata':
          l = v.fields['data_bag_metadata']
          if l.ref not in seen:
            seen.add(l.ref)
            out.append((n + '.data_bag_metadata', l))
      f = f.closure
    if L.acc is not None and L.acc.ref not in seen:
      out.append(('acc', L.acc))
    return out

  def loop_invariants(self, it, L):
    c = []
    i, length = L.i, L.length
    j, k2 = z3.Ints('j k')
    k = z3.Const('k', Val)
    p = z3.Const('p', S)
    if L.phase == 'entry':
      L.data['fs'] = it.ghost.get('fs')
      for n, o in self.containers(it, L):
        if isinstance(o, ListObj):
          L.data[o.ref] = it.seq_term(o) if not (o.items is not None and any(
              isinstance(x, (ListObj, DictObj)) for x in o.items)) else None
        elif isinstance(o, SetObj):
          L.data[o.ref] = setdom(it, o)
        elif isinstance(o, DictObj):
          L.data[o.ref] = dictdom(it, o)
    if 'fs' in it.ghost:
      fs, fs0 = it.ghost['fs'], L.data['fs']
      g = it.ghost['G']
      if L.phase == 'entry':
        L.data['G'] = dict(g.fields)
      for n in g.fields:
        c.append((f'ghost {n} unchanged', it.int_t(g.fields[n]) == it.int_t(L.data['G'][n])))
        c.append((f'ghost {n} grows', it.int_t(g.fields[n]) >= it.int_t(L.data['G'][n])))
      c.append(('no file operations', fs == fs0))
      c.append(('committed files stay', FA([p], z3.Implies(
          z3.And(fs0[p] != NONE, z3.Or(IsFinal(BaseOf(p)), it.ghost['keep'][p])),
          fs[p] == fs0[p]), patterns=[fs[p]])))
    elem = self.elem_at(it, L, j) if L.kind == 'for' else None
    ei = self.elem_at(it, L, i) if L.kind == 'for' else None
    rng = z3.And(0 <= j, j < i) if L.kind == 'for' else None
    pats = []
    if L.kind == 'for':
      pats = pure_.source_patterns(it, L.at)(j)
    c += self.area_invariants(it, L, elem, rng, pats)
    return c

  def elem_at(self, it, L, j):
    try:
      x = L.at(j)
    except Unsupported:
      return None
    return x if isinstance(x, tuple) else (x,)

  def area_invariants(self, it, L, elem, rng, pats):
    """Generic candidates over the containers of the loop."""
    c = []
    j = z3.Int('j')
    k = z3.Const('k', Val)
    i, length = L.i, L.length
    cs = self.containers(it, L)
    fs = it.ghost.get('fs')
    if elem is None:
      return self.while_invariants(it, L, cs)
    terms = [x.t if isinstance(x, (SVal, SStr)) else None for x in elem]
    vterms = [t if t is None or t.sort() == Val else Val.str(t) for t in terms]
    # elements with a path: (bag, file name) pairs being written
    for n, o in cs:
      if isinstance(o, ListObj):
        s0 = L.data.get(o.ref)
        if s0 is None:
          continue
        s = it.seq_term(o)
        if s.eq(s0) and L.phase != 'entry':
          continue
        n0 = z3.IntVal(0) if s0.eq(seqs._F.empty) else Length(s0)
        c.append((f'{n}: one element per iteration', Length(s) == n0 + i))
        if not z3.is_int_value(n0):
          c.append((f'{n}: a prefix is kept', FA([j], z3.Implies(
              z3.And(0 <= j, j < n0), s[j] == s0[j]), patterns=[s[j]])))

        def each(name, P):
          """P(new element, source elements) for the iterations so far."""
          if z3.is_int_value(n0):
            c.append((name, FA([j], z3.Implies(rng, P(s[j], vterms)), patterns=[s[j]] + pats)))
            return
          t = [None if x is None else z3.substitute(x, (j, j - n0)) for x in vterms]
          c.append((name, z3.And(
              FA([j], z3.Implies(z3.And(n0 <= j, j < n0 + i), P(s[j], t)), patterns=[s[j]]),
              FA([j], z3.Implies(rng, P(s[n0 + j], vterms)), patterns=pats))))

        ok = self.FutOK
        if len(elem) == 2 and isinstance(elem[1], (SStr, SVal)) and terms[0] is not None and hasattr(self, 'D'):
          each(f'{n}: files of finished writers are complete', lambda e, t: z3.Implies(
              ok(e), fs[Join(self.D, Val.s(t[1]))] == SerBag(t[0])))
          each(f'{n}: entries describe the bags', lambda e, t: z3.And(
              Val.is_ref(e), NameF(e) == NameF(t[0]), FileF(e) == Val.s(t[1]),
              DepsF(e) == DepsF(t[0]), CustF(e) == CustF(t[0]), z3.Not(HasDirF(e))))
        if vterms[0] is not None and hasattr(self, 'E'):
          each(f'{n}: finished readers hold the bags', lambda e, t: z3.Implies(
              ok(e), self.FutVal(e) == self.bag_of_name(t[0])))
          c += self.branch_invariants(it, L, n, s, s0, i)
      elif isinstance(o, SetObj):
        d, d0 = setdom(it, o), L.data.get(o.ref)
        if d0 is None:
          continue
        c.append((f'{n}: unchanged', d == d0))
        c.append((f'{n}: grows', FA([k], z3.Implies(d0[k], d[k]), patterns=[d[k], d0[k]] if not z3.is_const_array(d0) else [d[k]])))
        if terms[0] is not None and terms[0].sort() == Val:
          b = terms[0]
          c.append((f'{n}: contains the names so far', FA([j], z3.Implies(rng, d[nv(b)]), patterns=pats or [d[nv(b)]])))
          c.append((f'{n}: contains the elements so far', FA([j], z3.Implies(rng, d[b]), patterns=pats or [d[b]])))
          B = getattr(self, 'B', None)
          if B is not None:
            inb = z3.And(0 <= BIdx(k), BIdx(k) < i, nv(B[BIdx(k)]) == k)
            c.append((f'{n}: old names or batch names so far', FA([k], z3.Implies(
                d[k], z3.Or(d0[k], inb)), patterns=[d[k]])))
            c.append((f'{n}: batch names so far are new', FA([j], z3.Implies(rng, z3.And(
                BIdx(nv(B[j])) == j, z3.Not(d0[nv(B[j])]))), patterns=[B[j]])))
            q = z3.Int('q')
            dd = DepsF(B[j])[q]
            c.append((f'{n}: dependencies so far were earlier', FA([j, q], z3.Implies(
                z3.And(rng, 0 <= q, q < Length(DepsF(B[j]))),
                z3.Or(d0[dd], z3.And(0 <= BIdx(dd), BIdx(dd) < j, nv(B[BIdx(dd)]) == dd))),
                                                                      patterns=[dd])))
      elif isinstance(o, DictObj):
        if L.data.get(o.ref) is None:
          continue
        (d, v), (d0, v0) = dictdom(it, o), L.data[o.ref]
        c.append((f'{n}: unchanged', z3.And(d == d0, v == v0)))
        c.append((f'{n}: grows', FA([k], z3.Implies(d0[k], d[k]), patterns=[d[k]])))
        if hasattr(self, 'E'):
          c.append((f'{n}: values are the bags of the names', FA([k], z3.Implies(
              d[k], v[k] == self.bag_of_name(k)), patterns=[d[k]])))
          c.append((f'{n}: values are none or the bags of the names', FA([k], z3.Implies(
              d[k], z3.Or(v[k] == NONE, v[k] == self.bag_of_name(k))), patterns=[d[k]])))
          c.append((f'{n}: values are the custom metadata of the names', FA([k], z3.Implies(
              d[k], z3.And(self.is_name(it, k), v[k] == CustF(self.entry(k)))), patterns=[d[k]])))
          for n2, o2 in cs:
            if isinstance(o2, SetObj):
              D2 = setdom(it, o2)
              c.append((f'{n} within {n2}', FA([k], z3.Implies(d[k], D2[k]), patterns=[d[k]])))
              if terms[0] is not None:
                nm = nv(vterms[0])
                c.append((f'{n}: covers the names of {n2} so far', FA([j], z3.Implies(
                    z3.And(rng, D2[nm]), d[nm]), patterns=pats or [d[nm]])))
          if vterms[0] is not None:
            c.append((f'{n}: covers the elements so far', FA([j], z3.Implies(
                rng, d[vterms[0]]), patterns=pats or [d[vterms[0]]])))
            c.append((f'{n}: old keys or elements so far', FA([k], z3.Implies(
                d[k], z3.Or(d0[k], z3.Exists([j], z3.And(rng, vterms[0] == k)))), patterns=[d[k]])))
      elif isinstance(o, SetDict) and hasattr(self, 'E'):
        x, y = z3.Consts('x y', Val)
        c += self.rev_invariants(it, L, n, o, elem, rng, pats)
    # futures consumed so far succeeded
    if terms[0] is not None and terms[0].sort() == Val:
      c.append(('consumed futures succeeded', FA([j], z3.Implies(rng, self.FutOK(vterms[0])), patterns=pats or [self.FutOK(vterms[0])])))
    if len(elem) == 2 and isinstance(elem[1], (SStr, SVal)) and vterms[1] is not None and fs is not None and hasattr(self, 'D'):
      if terms[1].sort() == S or z3.is_app(terms[1]):
        fn = Val.s(vterms[1]) if terms[1].sort() == Val else terms[1]
        path = Join(self.D, fn)
        c.append(('files still to be written are absent', FA([j], z3.Implies(
            z3.And(i <= j, j < length), fs[path] == NONE), patterns=pats)))
    return c

  def branch_invariants(self, it, L, n, s, s0, i):
    return []

  def dep(self, x, y):
    """Bag x lists y among its dependencies."""
    return seqs.has(DepsF(self.entry(x)), y)

  def rev_invariants(self, it, L, o_name, o, elem, rng, pats):
    """A map from a name to the set of the names that depend on it."""
    n = o_name
    c = []
    x, y = z3.Consts('x y', Val)
    j, q = z3.Ints('j q')
    mem = o.mem
    c.append((f'{n}: only dependents', FA([y, x], z3.Implies(
        mem[y][x], z3.And(o.dom[y], self.is_name(it, x), self.dep(x, y))), patterns=[mem[y][x]])))
    if L.phase == 'entry':
      L.data[o.ref] = mem
    m0 = L.data.get(o.ref)
    if m0 is not None:
      c.append((f'{n}: grows', FA([y, x], z3.Implies(m0[y][x], mem[y][x]),
                                  patterns=[mem[y][x], m0[y][x]] if not z3.is_K(m0) else [mem[y][x]])))
    for m, t in enumerate(elem):
      if not isinstance(t, (SVal, SStr)):
        continue
      v = t.t if isinstance(t, SVal) else Val.str(t.t)
      n = f'{o_name}[{m}]'
      d = DepsF(self.entry(v))[q]
      c.append((f'{n}: all dependencies of the names so far', FA([j, q], z3.Implies(
          z3.And(rng, 0 <= q, q < Length(DepsF(self.entry(v)))), mem[d][v]),
                                                                  patterns=[z3.MultiPattern(p_, d) for p_ in pats])))
      # inner loop: the elements are the dependencies of one bag
      for z in self.frame_terms(L):
        c.append((f'{n}: {z[0]} is a dependent of the elements so far', FA([j], z3.Implies(
            rng, mem[v][z[1]]), patterns=pats)))
    return c

  def frame_terms(self, L):
    out = []
    f = L.frame
    while f is not None and f.fn is not None:
      for n, v in f.locals.items():
        if isinstance(v, SStr):
          out.append((n, Val.str(v.t)))
        elif isinstance(v, SVal):
          out.append((n, v.t))
      f = f.closure
    return out

  def member(self, it, o):
    if isinstance(o, SetObj):
      d = setdom(it, o)
      return lambda k: d[k]
    s = it.seq_term(o)
    return lambda k: seqs.has(s, k)

  def while_invariants(self, it, L, cs):
    """A worklist and a visited set over a relation on names."""
    c = []
    k, x, y = z3.Consts('k x y', Val)
    sets = [(n, o) for n, o in cs if isinstance(o, (SetObj, ListObj))]
    if L.phase == 'entry':
      L.data['sets'] = {o.ref: self.member(it, o) for _, o in sets}
    rels = []
    f = L.frame
    while f is not None and f.fn is not None:
      for n, v in f.locals.items():
        if isinstance(v, SetDict):
          rels.append((n, lambda x, y, v=v: v.mem[x][y], lambda x, y, v=v: [v.mem[x][y]], 'rev'))
        elif isinstance(v, DictObj) and v.items is None:
          rels.append((n, lambda x, y: self.dep(x, y), lambda x, y: [self.dep(x, y)], 'dep'))
      f = f.closure
    for n1, a in sets:
      A = self.member(it, a)
      A0 = L.data['sets'][a.ref]
      c.append((f'{n1}: names only', FA([k], z3.Implies(A(k), self.is_name(it, k)), patterns=[A(k)])))
      for nm, T, _ in self.tests:
        c.append((f'{n1} within {nm}', FA([k], z3.Implies(A(k), T[k]), patterns=[A(k)])))
      for n2, b in sets:
        if a is b:
          continue
        Bm = self.member(it, b)
        pats = [A0(k)] if not (isinstance(a, SetObj) and a.items == [] or z3.is_K(A0(k).arg(0))) else []
        c.append((f'{n1} or {n2}: keeps {n1}', FA([k], z3.Implies(
            A0(k), z3.Or(A(k), Bm(k))), patterns=pats)))
        for nr, R, P, _ in rels:
          c.append((f'{nr}: successors of {n1} are in {n1} or {n2}', FA([x, y], z3.Implies(
              z3.And(A(x), R(x, y)), z3.Or(A(y), Bm(y))),
                                       patterns=[z3.MultiPattern(A(x), p_) for p_ in P(x, y)])))
    if L.phase == 'assume':
      for n1, a in sets:
        self.least_facts(it, self.member(it, a))
    return c

  tests = ()

  def least_facts(self, it, m):
    pass


def call_method(it, o, name, args, kwargs=None):
  try:
    return it.call(it.getattr(o, name), args, kwargs or {}), None
  except PyRaise as e:
    return None, e.exc


# ---------------------------------------------------------------- add_bags --


class AddSpec(DbmSpec):
  """add_bags, executed in full (validation, file names, files, metadata,
  commit, cache)."""

  def __init__(self, prop, valid):
    super().__init__(prop)
    self.valid = valid
    self.committed = False

  def batch(self, it):
    B = it.fresh('bags_to_add', SeqVal)
    self.B = B
    nb = Length(B)
    j, q = z3.Ints('j q')
    it.assume_q(nb < MAXN)
    it.assume_q(FA([j], z3.Implies(z3.And(0 <= j, j < nb), z3.And(
        Val.is_ref(B[j]), Val.is_ref(BagF(B[j])),
        # first index of that name in the batch
        0 <= BIdx(nv(B[j])), BIdx(nv(B[j])) <= j, nv(B[BIdx(nv(B[j]))]) == nv(B[j]))),
                   patterns=[B[j]]))
    d = DepsF(B[j])[q]
    inr = z3.And(0 <= j, j < nb, 0 <= q, q < Length(DepsF(B[j])))
    it.assume_q(FA([j, q], z3.Implies(inr, Val.is_str(d)), patterns=[d]))
    if self.valid:
      it.assume_q(FA([j], z3.Implies(z3.And(0 <= j, j < nb), z3.And(
          z3.Not(self.is_name(it, nv(B[j]))), BIdx(nv(B[j])) == j)), patterns=[B[j]]))
      it.assume_q(FA([j, q], z3.Implies(inr, z3.Or(
          self.is_name(it, d), z3.And(0 <= BIdx(d), BIdx(d) < j, nv(B[BIdx(d)]) == d))),
                     patterns=[d]))
    else:
      j0, q0, j1 = z3.Ints('bad_j bad_q bad_j1')
      d0 = DepsF(B[j0])[q0]
      it.assume(z3.And(0 <= j0, j0 < nb))
      it.assume_q(z3.Or(
          self.is_name(it, nv(B[j0])),
          z3.And(0 <= j1, j1 < j0, nv(B[j1]) == nv(B[j0])),
          z3.And(0 <= q0, q0 < Length(DepsF(B[j0])), z3.Not(self.is_name(it, d0)),
                 FA([j], z3.Implies(z3.And(0 <= j, j < j0), nv(B[j]) != d0), patterns=[B[j]]))))
      # name the witnesses so that the solver looks at them
      it.assume_q(z3.Const('wit_a', Val) == B[j0])
      it.assume_q(z3.Const('wit_b', Val) == B[j1])
      it.assume_q(z3.Const('wit_c', Val) == d0)
      it.assume_q(z3.Const('wit_d', Val) == B[BIdx(nv(B[j0]))])
      it.assume_q(z3.Const('wit_e', Val) == B[BIdx(d0)])
    l = it.new_list_sym(B)
    return l

  def on_mutate(self, it, what, p):
    if not self.valid:
      self.ob(it, 'P16', f'nothing is written for an invalid batch ({what})', False)
    self.ob(it, 'P16 P17', f'nothing is changed after the commit ({what})',
            self.counted(it, 'commits') == 0)

  def on_commit(self, it, a, b):
    """What the commit publishes."""
    fs = it.ghost['fs']
    self.ob(it, 'P16 P17', 'the commit is the next update of the state the manager holds',
            b == self.final_path(self.D, self.N0 + 1))
    data = fs[a]
    seq = it.define('published', SerE(data))
    self.seq = seq
    nb, N = Length(self.B), Length(self.E)
    j = z3.Int('j')
    self.ob(it, 'P16 P17', 'the published file is complete metadata with the next number',
            data == Ser(self.V, self.N0 + 1, seq))
    self.ob(it, 'P16', 'one entry per old and new bag', Length(seq) == N + nb)
    self.ob(it, 'P16 P17', 'all old entries are kept, in order', FA([j], z3.Implies(
        z3.And(0 <= j, j < N), seq[j] == self.E[j])))
    e, bta = seq[j], self.B[j - N]
    inr = z3.And(N <= j, j < N + nb)
    for nm, f in (('name', NameF(e) == NameF(bta)), ('dependencies', DepsF(e) == DepsF(bta)),
                  ('custom metadata', CustF(e) == CustF(bta)), ('directory', z3.Not(HasDirF(e)))):
      self.ob(it, 'P16', f'new entries in order: {nm}', FA([j], z3.Implies(inr, f)))
    self.ob(it, 'P16', 'every new file is completely written before the commit', FA([j], z3.Implies(
        inr, fs[Join(self.D, FileF(e))] == SerBag(BagF(bta)))))
    self.ob(it, 'P16 P17', 'new files have names never used before', FA([j], z3.Implies(
        inr, z3.And(it.ghost['mine'][Own(FileF(e))], z3.Not(IsFinal(FileF(e)))))))
    self.ob(it, 'P16 P17', 'the manager still holds the state it extends',
            self.same_metadata(it))
    # From here on the new files are committed (ghost definitions).
    it.assume_q(FA([j], z3.Implies(inr, BagAt(FileF(e)) == BagF(bta)), patterns=[e]))

def h_add(sp):
  def harness(it):
    m = sp.manager(it)
    l = sp.batch(it)
    fs0 = it.ghost['fs']
    r, exc = call_method(it, m, 'add_bags', [l])
    if not sp.valid:
      it.cover('rejected')
      sp.ob(it, 'P16', 'an invalid batch is rejected', exc is not None)
      sp.ob(it, 'P16', 'a rejected batch changes nothing in memory', sp.same_metadata(it))
      sp.ob(it, 'P16', 'a rejected batch is not committed', sp.counted(it, 'commits') == 0)
      return
    if exc is None:
      it.cover('added')
      sp.ob(it, 'P16 P17', 'normal return only after one commit', sp.counted(it, 'commits') == 1)
      md = m.fields['_metadata']
      sp.ob(it, 'P16', 'the manager holds what it committed', z3.And(
          it.int_t(md.fields['metadata_update_number']) == sp.N0 + 1,
          it.str_t(md.fields['version']) == sp.V,
          it.seq_term(md.fields['data_bag_metadata']) == sp.seq))
      p = sp.final_path(sp.D, sp.N0 + 1)
      sp.ob(it, 'P16 P17', 'the commit is on disk', it.ghost['fs'][p] == Ser(sp.V, sp.N0 + 1, sp.seq))
      it.cover('cached' if m.fields['bag_cache'] is not None else 'uncached')
      return
    it.cover('failed')
    stale = z3.BoolVal(False)
    for f in it.ghost.get('finals_seen', []):
      stale = z3.Or(stale, f)
    p = sp.final_path(sp.D, sp.N0 + 1)
    sp.ob(it, 'P16 P17', 'fails without a commit of its own', sp.counted(it, 'commits') == 0)
    sp.ob(it, 'P16 P17', 'a failed update leaves the manager as it was', sp.same_metadata(it))
    sp.ob(it, 'P16 P17', 'fails only for an i/o error or because somebody else committed',
          z3.Or(sp.counted(it, 'faults') != 0, it.ghost['fs'][p] != NONE))
  return harness


# ---------------------------------------------------------------- closures --


class ClosureSpec(DbmSpec):
  """Ghost sets: S the requested names, T any dependency-closed superset of
  the start set, RC the least set containing S and closed under dependents."""

  any_flag = False

  def request(self, it, names_known=True):
    x, y, k = z3.Consts('x y k', Val)
    i = z3.Int('i')
    Q = it.fresh('bag_names', SeqVal)
    self.Q = Q
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(Q)), Val.is_str(Q[i])), patterns=[Q[i]]))
    self.S = lambda k: seqs.has(Q, k)
    self.known = FA([i], z3.Implies(z3.And(0 <= i, i < Length(Q)), self.is_name(it, Q[i])), patterns=[Q[i]])
    if self.any_flag:  # (T and RC are not needed)
      # callers that only pass the flag on
      self.dependents = SBool(it.fresh('with_all_dependents', z3.BoolSort()))
      return it.new_list_sym(Q)
    T = it.fresh('T', SetArr)
    RC = it.fresh('RC', SetArr)
    self.T, self.RC = T, RC
    it.assume_q(FA([x, y], z3.Implies(z3.And(T[x], self.dep(x, y)), T[y]),
                   patterns=[z3.MultiPattern(T[x], self.dep(x, y))]))
    dq = DepsF(self.entry(x))[i]
    it.assume_q(FA([x, i], z3.Implies(z3.And(T[x], 0 <= i, i < Length(DepsF(self.entry(x)))), T[dq]),
                   patterns=[z3.MultiPattern(T[x], dq)]))
    self.dependents = it.option('with_all_dependents')
    if self.dependents:
      it.assume_q(FA([k], z3.Implies(self.S(k), RC[k]), patterns=[self.S(k)]))
      it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(Q)), RC[Q[i]]), patterns=[Q[i]]))
      it.assume_q(FA([k], z3.Implies(RC[k], self.is_name(it, k)), patterns=[RC[k]]))
      it.assume_q(FA([x, y], z3.Implies(z3.And(self.is_name(it, x), self.dep(x, y), RC[y]), RC[x]),
                     patterns=[z3.MultiPattern(RC[y], self.dep(x, y))]))
      it.assume_q(FA([k], z3.Implies(RC[k], T[k]), patterns=[RC[k]]))
      self.tests = [('T', T, None), ('RC', RC, None)]
    else:
      it.assume_q(FA([k], z3.Implies(self.S(k), T[k]), patterns=[self.S(k)]))
      it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(Q)), T[Q[i]]), patterns=[Q[i]]))
      self.tests = [('T', T, None)]
    l = it.new_list_sym(Q)
    return l

  def least_facts(self, it, m):
    if not self.dependents:
      return
    k = z3.Const('k', Val)
    w, x1, y1 = it.fresh('w', Val), it.fresh('w', Val), it.fresh('w', Val)
    it.assume_q(z3.Or(
        z3.And(self.S(w), z3.Not(m(w))),
        z3.And(m(y1), self.is_name(it, x1), self.dep(x1, y1), z3.Not(m(x1))),
        FA([k], z3.Implies(self.RC[k], m(k)), patterns=[self.RC[k]])))

  def closure_obligations(self, it, R, what, prop):
    """R: membership of the result."""
    k, x, y = z3.Consts('k x y', Val)
    self.ob(it, prop, f'{what}: contains the requested bags', FA([k], z3.Implies(self.S(k), R(k))))
    self.ob(it, prop, f'{what}: contains the dependencies of its bags', FA([x, y], z3.Implies(
        z3.And(R(x), self.dep(x, y)), R(y))))
    self.ob(it, prop, f'{what}: within every closed set that contains the start', FA([k], z3.Implies(
        R(k), self.T[k])))
    self.ob(it, prop, f'{what}: bags of this manager only', FA([k], z3.Implies(R(k), self.is_name(it, k))))
    if self.dependents:
      self.ob(it, prop, f'{what}: contains all dependents', FA([k], z3.Implies(self.RC[k], R(k))))


def h_closure(sp):
  def harness(it):
    m = sp.manager(it, cache=False)
    l = sp.request(it)
    r, exc = call_method(it, m, '_get_dependency_closure', [l], {'with_all_dependents': sp.dependents})
    if exc is not None:
      it.cover('rejected')
      sp.ob(it, 'P18', 'rejected with ValueError', it.exc_matches(exc, ValueError))
      sp.ob(it, 'P18', 'known names are not rejected', z3.Not(sp.known))
      return
    it.cover('closure')
    sp.ob(it, 'P18', 'unknown names are rejected', sp.known)
    sp.closure_obligations(it, sp.member(it, r), 'closure', 'P18')
  return harness


# ----------------------------------------------------------------- loading --


class LoadSpec(ClosureSpec):

  def some_names(self, it):
    """An arbitrary set of names of this manager."""
    k = z3.Const('k', Val)
    R = it.fresh('bags_to_load', SetArr)
    it.assume_q(FA([k], z3.Implies(R[k], z3.And(self.is_name(it, k), Val.is_str(k))), patterns=[R[k]]))
    self.R = R
    s = it.new_set()
    s.items = None
    s.dom = R
    s.card = it.fresh('card', z3.IntSort())
    it.assume(s.card >= 0)
    it.assume_q((s.card == 0) == FA([k], z3.Not(R[k]), patterns=[R[k]]))
    return s

  def load_obligations(self, it, r, what, prop):
    k = z3.Const('k', Val)
    R = self.R
    if not isinstance(r, DictObj):
      self.ob(it, prop, f'{what}: returns a dict', False)
      return
    d, v = dictdom(it, r)
    self.ob(it, prop, f'{what}: exactly the requested names', FA([k], d[k] == R[k]))
    self.ob(it, prop, f'{what}: every bag is the one persisted under its name', FA([k], z3.Implies(
        d[k], v[k] == self.bag_of_name(k))))


def h_load(sp):
  def harness(it):
    m = sp.manager(it)
    s = sp.some_names(it)
    it.ghost['R'] = s
    r, exc = call_method(it, m, '_load_exactly_these_bags', [s])
    sp.ob(it, 'P19', 'loading changes nothing in the manager', sp.same_metadata(it))
    sp.ob(it, 'P19', 'loading commits nothing', sp.counted(it, 'commits') == 0)
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P19', 'fails only for an i/o error', sp.counted(it, 'faults') != 0)
      return
    it.cover('cached' if m.fields['bag_cache'] is not None else 'uncached')
    sp.load_obligations(it, r, 'load', 'P19')
  return harness


# ------------------------------------------- composition over the contracts --


class ComposeSpec(LoadSpec):
  """Callers of the closure and of the loader, against their contracts."""

  any_flag = True

  def use_contracts(self):
    self.contracts[(MOD, 'DataBagManager._get_dependency_closure')] = self.c_closure
    self.contracts[(MOD, 'DataBagManager._load_exactly_these_bags')] = self.c_load
    self.contracts[(MOD, 'DataBagManager.canonical_topological_sorting')] = self.c_sort
    self.contracts[(MOD, 'DataBagManager.get_custom_metadata')] = self.c_custom

  def name_set(self, it, v):
    if isinstance(v, bm.KeysView):
      return dictdom(it, v.d)[0]
    if isinstance(v, SetObj):
      return setdom(it, v)
    raise Unsupported('names that are not a set')

  def c_sort(self, it, fn, a, k):
    """Proved: P18 'sorting'."""
    args = dict(zip(('self', 'bag_names'), a), **k)
    d = self.name_set(it, args['bag_names'])
    kk = z3.Const('k', Val)
    self.ob(it, self.prop, 'only bags of this manager are sorted', z3.And(
        args['self'] is self.man, FA([kk], z3.Implies(d[kk], self.is_name(it, kk)))))
    r = it.fresh('sorted_names', SeqVal)
    it.nfresh += 1
    pos = z3.Function(f'position!{it.nfresh}', Val, z3.IntSort())
    m, m2 = z3.Ints('m m2')
    it.assume_q(FA([m], z3.Implies(z3.And(0 <= m, m < Length(r)), z3.And(
        d[r[m]], Val.is_str(r[m]), self.is_name(it, r[m]), pos(r[m]) == m)), patterns=[r[m]]))
    it.assume_q(FA([kk], z3.Implies(d[kk], z3.And(
        0 <= pos(kk), pos(kk) < Length(r), r[pos(kk)] == kk)), patterns=[d[kk]]))
    it.assume_q(FA([m, m2], z3.Implies(z3.And(0 <= m, m < m2, m2 < Length(r)),
                                       NIdx(r[m]) < NIdx(r[m2])),
                   patterns=[z3.MultiPattern(r[m], r[m2])]))
    self.position = pos
    return it.new_list_sym(r)

  def c_custom(self, it, fn, a, k):
    """Proved: P18 'names'."""
    args = dict(zip(('self', 'bag_names'), a), **k)
    d = self.name_set(it, args['bag_names'])
    kk = z3.Const('k', Val)
    self.ob(it, self.prop, 'custom metadata is taken for bags of this manager', z3.And(
        args['self'] is self.man, FA([kk], z3.Implies(d[kk], self.is_name(it, kk)))))
    r = it.new_dict_sym('custom')
    it.assume_q(FA([kk], r.dom[kk] == d[kk], patterns=[r.dom[kk], d[kk]]))
    it.assume_q(FA([kk], z3.Implies(r.dom[kk], r.val[kk] == CustF(self.entry(kk))), patterns=[r.val[kk]]))
    return r

  def c_closure(self, it, fn, a, k):
    """Proved: P18 'closure'."""
    args = dict(zip(('self', 'bag_names', 'with_all_dependents'), a), **k)
    self.ob(it, self.prop, 'the closure is computed for the requested names and flag', z3.And(
        args['self'] is self.man and self._same_names(it, args['bag_names']) is True,
        it.truth(args['with_all_dependents']) == it.truth(self.dependents)))
    if it.choose('names unknown'):
      it.assume_q(z3.Not(self.known))
      it.throw(ValueError, 'unknown bags')
    it.assume_q(self.known)
    x, y, kk = z3.Consts('x y k', Val)
    i = z3.Int('i')
    r = self.some_names(it)
    R = self.R
    it.assume_q(FA([kk], z3.Implies(self.S(kk), R[kk]), patterns=[self.S(kk)]))
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(self.Q)), R[self.Q[i]]), patterns=[self.Q[i]]))
    it.assume_q(FA([x, y], z3.Implies(z3.And(R[x], self.dep(x, y)), R[y]),
                   patterns=[z3.MultiPattern(R[x], self.dep(x, y))]))
    dq = DepsF(self.entry(x))[i]
    it.assume_q(FA([x, i], z3.Implies(z3.And(R[x], 0 <= i, i < Length(DepsF(self.entry(x)))), R[dq]),
                   patterns=[z3.MultiPattern(R[x], dq)]))
    it.ghost['R'] = r
    return r

  def _same_names(self, it, l):
    return l is self.Qlist

  def c_load(self, it, fn, a, k):
    """Proved: P19 'load'."""
    args = dict(zip(('self', 'bags_to_load'), a), **k)
    self.ob(it, self.prop, 'exactly the closure is loaded', z3.And(
        args['self'] is self.man and isinstance(args['bags_to_load'], SetObj)
        and it.set_arr(args['bags_to_load']) == self.R))
    self.env(it)
    self.fault(it)
    d = it.new_dict_sym('loaded')
    kk = z3.Const('k', Val)
    it.assume_q(FA([kk], d.dom[kk] == self.R[kk], patterns=[d.dom[kk], self.R[kk]]))
    it.assume_q(FA([kk], z3.Implies(d.dom[kk], d.val[kk] == self.bag_of_name(kk)), patterns=[d.val[kk]]))
    self.loaded = d
    return d

  def request(self, it):
    l = super().request(it)
    self.Qlist = l
    return l


def h_load_bags(sp):
  def harness(it):
    m = sp.manager(it, cache=False)
    l = sp.request(it)
    k = z3.Const('k', Val)
    r, exc = call_method(it, m, 'load_bags', [l], {'with_all_dependents': sp.dependents})
    sp.ob(it, 'P19', 'load_bags changes nothing', z3.And(
        sp.same_metadata(it), sp.counted(it, 'commits') == 0))
    if exc is not None:
      it.cover('rejected')
      sp.ob(it, 'P19', 'load_bags fails only for unknown names or an i/o error', z3.Or(
          sp.counted(it, 'faults') != 0, z3.And(it.exc_matches(exc, ValueError), z3.Not(sp.known))))
      return
    it.cover('loaded')
    sp.ob(it, 'P19', 'load_bags rejects unknown names', sp.known)
    sp.load_obligations(it, r, 'load_bags', 'P19')
  return harness


class LoadAllSpec(ComposeSpec):

  def __init__(self, prop):
    super().__init__(prop)
    self.use_contracts()


BagIdx = z3.Function('index_of_bag', Val, z3.IntSort())


class MinimalSpec(ComposeSpec):

  def __init__(self, prop):
    super().__init__(prop)
    self.use_contracts()
    self.merged = None

  def m_updated(self, it, a, k):
    r = super().m_updated(it, a, k)
    self.merged = r.t.arg(0)
    return r


def h_minimal(sp):
  def harness(it):
    m = sp.manager(it, cache=False)
    i, j = z3.Ints('i j')
    k = z3.Const('k', Val)
    # Bags of different entries are told apart (the code never looks inside).
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(sp.E)),
                                   BagIdx(BagAt(FileF(sp.E[i]))) == i), patterns=[FileF(sp.E[i])]))
    l = sp.request(it)
    fs0 = it.ghost['fs']
    r, exc = call_method(it, m, 'get_minimal_bag', [l], {'with_all_dependents': sp.dependents})
    sp.ob(it, 'P18', 'get_minimal_bag changes nothing', z3.And(
        sp.same_metadata(it), sp.counted(it, 'commits') == 0))
    if exc is not None:
      it.cover('rejected')
      sp.ob(it, 'P18', 'get_minimal_bag fails only for unknown names or an i/o error', z3.Or(
          sp.counted(it, 'faults') != 0, z3.And(it.exc_matches(exc, ValueError), z3.Not(sp.known))))
      return
    it.cover('merged')
    t = it.tv(r)
    q = sp.merged
    ok = q is not None and z3.eq(z3.simplify(t), z3.simplify(Updated(q)))
    sp.ob(it, 'P18', 'the result is the merge of bags', ok)
    if not ok:
      return
    R = sp.R
    n = Length(q)
    nm = lambda e: nv(sp.E[BagIdx(e)])
    sp.ob(it, 'P18', 'only bags of the closure are merged', FA([i], z3.Implies(
        z3.And(0 <= i, i < n), z3.And(
            0 <= BagIdx(q[i]), BagIdx(q[i]) < Length(sp.E), R[nm(q[i])],
            q[i] == BagAt(FileF(sp.E[BagIdx(q[i])]))))))
    sp.ob(it, 'P18', 'merged in the order in which they were added, each once', FA([i, j], z3.Implies(
        z3.And(0 <= i, i < j, j < n), BagIdx(q[i]) < BagIdx(q[j]))))
    sp.ob(it, 'P18', 'every bag of the closure is merged', FA([k], z3.Implies(
        R[k], seqs.has(q, sp.bag_of_name(k)))))
  return harness


def h_sorting(sp):
  def harness(it):
    m = sp.manager(it, cache=False)
    s = sp.some_names(it)
    R = sp.R
    i, j = z3.Ints('i j')
    k = z3.Const('k', Val)
    r, exc = call_method(it, m, 'canonical_topological_sorting', [s])
    sp.ob(it, 'P18', 'sorting does not fail', exc is None)
    if exc is not None:
      return
    it.cover('sorted')
    q = it.seq_term(r)
    n = Length(q)
    sp.ob(it, 'P18', 'sorting: only the names given', FA([i], z3.Implies(
        z3.And(0 <= i, i < n), R[q[i]])))
    sp.ob(it, 'P18', 'sorting: every name given', FA([k], z3.Implies(R[k], seqs.has(q, k))))
    sp.ob(it, 'P18', 'sorting: each once, in the order in which they were added', FA([i, j], z3.Implies(
        z3.And(0 <= i, i < j, j < n), NIdx(q[i]) < NIdx(q[j]))))
  return harness


def h_names(sp):
  def harness(it):
    m = sp.manager(it, cache=False)
    k = z3.Const('k', Val)
    r, exc = call_method(it, m, 'get_available_bag_names', [])
    sp.ob(it, 'P18', 'get_available_bag_names does not fail', exc is None)
    if exc is not None:
      return
    it.cover('names')
    mem = sp.member(it, r)
    sp.ob(it, 'P18', 'the available names are those of the entries', FA([k], mem(k) == sp.is_name(it, k)))
    l = sp.request(it)
    r, exc = call_method(it, m, 'get_custom_metadata', [l])
    if exc is not None:
      it.cover('unknown')
      sp.ob(it, 'P18', 'custom metadata: only unknown names are rejected, with ValueError', z3.And(
          it.exc_matches(exc, ValueError), z3.Not(sp.known)))
      return
    it.cover('custom')
    sp.ob(it, 'P18', 'custom metadata: unknown names are rejected', sp.known)
    d, v = dictdom(it, r)
    sp.ob(it, 'P18', 'custom metadata: exactly the requested names', FA([k], d[k] == sp.S(k)))
    sp.ob(it, 'P18', 'custom metadata: each value is the one given to add_bags', FA([k], z3.Implies(
        d[k], v[k] == CustF(sp.entry(k)))))
  return harness


# ----------------------------------------------------------------- opening --


class DirSpec(ComposeSpec):
  """Directories with committed metadata, leftovers of crashed writers, and
  other writers at work."""

  def disk(self, it):
    """Committed metadata files are complete (P16) and numbered by name."""
    fs = it.ghost['fs']
    p, x = z3.Consts('p x', S)
    it.assume_q(FA([p], z3.Implies(z3.And(fs[p] != NONE, IsFinal(BaseOf(p))), z3.And(
        SerN(fs[p]) == Num(BaseOf(p)),
        fs[p] == Ser(SerV(fs[p]), SerN(fs[p]), SerE(fs[p])))), patterns=[fs[p]]))
    it.assume_q(FA([x], z3.Implies(IsFinal(x), x == self.canon(Z12(Num(x)))), patterns=[IsFinal(x)]))

  def after_env(self, it, a, b):
    # Other writers commit complete metadata only.
    p = z3.Const('p', S)
    it.assume_q(FA([p], z3.Implies(z3.And(b[p] != NONE, IsFinal(BaseOf(p))), z3.And(
        SerN(b[p]) == Num(BaseOf(p)),
        b[p] == Ser(SerV(b[p]), SerN(b[p]), SerE(b[p])))), patterns=[b[p]]))

  def md(self, it, m):
    d = m.fields['_metadata']
    return (it.str_t(d.fields['version']), it.int_t(d.fields['metadata_update_number']),
            it.seq_term(d.fields['data_bag_metadata']))

  def classm(self, it, name):
    return it.getattr(it.modname(it.prog.module(MOD), 'DataBagManager'), name)


class OpenSpec(DirSpec):
  what = 'open'

  def on_mutate(self, it, what, p):
    self.ob(it, 'P21', f'opening a directory changes nothing ({what})', False)


def call(it, f, args, kwargs=None):
  try:
    return it.call(f, args, kwargs or {}), None
  except PyRaise as e:
    return None, e.exc


def h_open(sp):
  def harness(it):
    sp.setup(it)
    D = sp.D = it.fresh('dir', S)
    sp.disk(it)
    fs0 = it.ghost['fs']
    it.assume_q(it.ghost['keep'][D])
    q = it.fresh('committed', S)  # any path
    it.ghost['tracked'] = [D, q]
    committed = lambda q: z3.And(fs0[q] != NONE, DirOf(q) == D, Join(D, BaseOf(q)) == q, IsFinal(BaseOf(q)))
    it.assume_q(z3.Implies(committed(q), fs0[D] != NONE))
    given = it.choose('fs given')
    fs = sp.new_fs(it)
    r, exc = call(it, sp.classm(it, 'create_from_dir'), [SStr(D)], {'fs': fs if given else None})
    if exc is not None:
      it.cover('failed')
      sp.ob(it, 'P21', 'a directory with committed metadata can be opened, unless the file system fails',
            z3.Or(sp.counted(it, 'faults') != 0, z3.Not(committed(q))))
      sp.ob(it, 'P21', 'a directory without metadata is rejected with ValueError',
            z3.Or(sp.counted(it, 'faults') != 0, it.exc_matches(exc, ValueError)))
      return
    it.cover('opened')
    V, N, E = sp.md(it, r)
    p = sp.final_path(D, N)
    fs1 = it.ghost['fs']
    sp.ob(it, 'P21', 'the state shown is a committed one', z3.And(
        fs1[p] != NONE, fs1[p] == Ser(V, N, E)))
    sp.ob(it, 'P21', 'no committed state is newer than the one shown', z3.Implies(
        committed(q), Num(BaseOf(q)) <= N))
    sp.ob(it, 'P21', 'the manager works on the directory it was opened from',
          it.str_t(r.fields['_persistence_dir']) == D)
    sp.ob(it, 'P21', 'the manager uses the file system given',
          (r.fields['_fs'] is fs) if given else True)
  return harness


class NewSpec(DirSpec):
  case = 'fresh'
  OUT_PROP = 'P21'

  given = None

  def on_mutate(self, it, what, p):
    if self.given is not None:
      self.ob(it, self.OUT_PROP, f'the output is written through the file system given ({what})',
              it.ghost['op_fs'] is self.given)
    if self.case == 'occupied':
      self.ob(it, self.OUT_PROP, f'nothing is written to a directory that is not empty ({what})', False)
    self.ob(it, self.OUT_PROP, f'only the output directory is written ({what})',
            z3.Or(p == self.OUT, DirOf(p) == self.OUT))

  def on_commit(self, it, a, b):
    self.ob(it, self.OUT_PROP, 'the first commit has number 0', b == self.final_path(self.OUT, 0))
    data = it.ghost['fs'][a]
    self.commit_data = data
    it.ghost['commit_data'] = data

  def out_dir(self, it, case=None):
    """The directory to create: occupied, empty and alone, or anything."""
    choose = lambda n: it.option(n) if case is None else case == n
    D = self.OUT = it.fresh('out', S)
    it.assume_q(DirOf(D) != D)
    fs0 = it.ghost['fs']
    p = z3.Const('p', S)
    if choose('occupied'):
      self.case = 'occupied'
      w = it.fresh('occupant', S)
      it.ghost['tracked'] = [D, w]
      it.assume_q(z3.And(fs0[w] != NONE, DirOf(w) == D, Join(D, BaseOf(w)) == w, Visible(BaseOf(w)),
                         it.ghost['keep'][w], it.ghost['keep'][D], fs0[D] != NONE))
    elif choose('alone'):
      self.case = 'alone'
      self.alone = True
      it.assume_q(FA([p], z3.Implies(DirOf(p) == D, fs0[p] == NONE), patterns=[fs0[p], DirOf(p)]))
    else:
      self.case = 'any'
      self.alone = False
    if self.case != 'alone':
      self.alone = False
    return D


def h_new(sp):
  def harness(it):
    sp.setup(it)
    D = sp.out_dir(it)
    given = it.choose('fs given')
    fs = sp.new_fs(it)
    sp.given = fs if given else None
    r, exc = call(it, sp.classm(it, 'create_new'), [SStr(D)], {'fs': fs if given else None})
    no_fault = sp.counted(it, 'faults') == 0
    it.cover(sp.case)
    if sp.case == 'occupied':
      sp.ob(it, 'P21', 'a directory that is not empty is refused', exc is not None)
      sp.ob(it, 'P21', 'a directory that is not empty is refused with ValueError',
            exc is not None and z3.Implies(no_fault, it.exc_matches(exc, ValueError)))
      return
    if exc is not None:
      sp.ob(it, 'P21', 'an empty directory is accepted', sp.case != 'alone' or z3.Not(no_fault))
      sp.ob(it, 'P21', 'create_new fails without a commit', sp.counted(it, 'commits') == 0)
      return
    it.cover('created')
    V, N, E = sp.md(it, r)
    sp.ob(it, 'P21', 'a new manager has committed its empty state', z3.And(
        sp.counted(it, 'commits') == 1, N == 0, Length(E) == 0,
        it.ghost['fs'][sp.final_path(D, 0)] == Ser(V, N, E)))
    sp.ob(it, 'P21', 'a new manager works on its directory', z3.And(
        it.str_t(r.fields['_persistence_dir']) == D, (r.fields['_fs'] is fs) if given else True))
  return harness


# ---------------------------------------------------- branching, extracting --

Count = z3.Function('members_before', z3.IntSort(), z3.IntSort())


class CopySpec(NewSpec):
  """create_branch and extract_bags over the contracts of the closure, of
  loading, and of add_bags."""

  OUT_PROP = 'P20'
  branch = True

  def __init__(self, prop):
    super().__init__(prop)
    self.use_contracts()
    self.contracts[(MOD, 'DataBagManager.add_bags')] = self.c_add
    self.contracts[(MOD, 'DataBagManager.create_new')] = self.c_create_new
    self.sane = None

  def c_closure(self, it, fn, a, k):
    r = super().c_closure(it, fn, a, k)
    R, E = self.R, self.E
    i = z3.Int('i')
    # the number of members of the closure among the first entries
    it.assume_q(z3.And(Count(0) == 0, Length(E) >= 0))
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(E)), z3.And(
        Count(i) >= 0, Count(i + 1) == Count(i) + z3.If(R[nv(E[i])], 1, 0))), patterns=[E[i]]))
    return r

  def copy_of(self, e, o):
    """e is the entry of o in the branch."""
    return z3.And(Val.is_ref(e), NameF(e) == NameF(o), FileF(e) == FileF(o),
                  DepsF(e) == DepsF(o), CustF(e) == CustF(o), HasDirF(e),
                  DirF(e) == z3.If(HasDirF(o), DirF(o), self.D))

  def branch_invariants(self, it, L, n, s, s0, i):
    if not hasattr(self, 'R'):
      return []
    c = []
    E, R = self.E, self.R
    m, m2, j = z3.Ints('m m2 j')
    src = NIdx(nv(s[m]))
    c.append((f'{n}: one element per member so far', Length(s) == Count(i)))
    c.append((f'{n}: every member so far has its element', FA([j], z3.Implies(
        z3.And(0 <= j, j < i, R[nv(E[j])]), z3.And(
            0 <= Count(j), Count(j) < Count(i), NameF(s[Count(j)]) == NameF(E[j]))),
                                                               patterns=[E[j]])))
    c.append((f'{n}: elements are copies of members so far', FA([m], z3.Implies(
        z3.And(0 <= m, m < Length(s)), z3.And(
            0 <= src, src < i, R[nv(s[m])], self.copy_of(s[m], E[src]))), patterns=[s[m]])))
    c.append((f'{n}: in the order of the entries', FA([m, m2], z3.Implies(
        z3.And(0 <= m, m < m2, m2 < Length(s)), src < NIdx(nv(s[m2]))),
                                                      patterns=[z3.MultiPattern(s[m], s[m2])])))
    return c

  def on_commit(self, it, a, b):
    super().on_commit(it, a, b)
    data = self.commit_data
    P = 'P20'
    seq = it.define('published', SerE(data))
    if not self.branch:
      self.ob(it, P, 'the new manager starts empty', z3.And(
          data == Ser(SerV(data), 0, seq), Length(seq) == 0))
      return
    E, R = self.E, self.R
    self.ob(it, P, 'the branch is complete metadata with number 0', data == Ser(self.V, 0, seq))
    m, m2 = z3.Ints('m m2')
    k = z3.Const('k', Val)
    inr = z3.And(0 <= m, m < Length(seq))
    e = seq[m]
    o = self.entry(nv(e))
    self.ob(it, P, 'branch: only bags of the closure', FA([m], z3.Implies(inr, z3.And(
        self.is_name(it, nv(e)), R[nv(e)]))))
    for nm, f in (('dependencies', DepsF(e) == DepsF(o)), ('custom metadata', CustF(e) == CustF(o)),
                  ('the file of the original', z3.If(
                      HasDirF(e), Join(DirF(e), FileF(e)), Join(self.OUT, FileF(e))) == self.path_of(o))):
      self.ob(it, P, f'branch: every bag keeps {nm}', FA([m], z3.Implies(inr, f)))
    self.ob(it, P, 'branch: each bag once, in the order in which they were added', FA([m, m2], z3.Implies(
        z3.And(0 <= m, m < m2, m2 < Length(seq)), NIdx(nv(e)) < NIdx(nv(seq[m2])))))
    w = Count(NIdx(k))
    self.ob(it, P, 'branch: every bag of the closure is there', FA([k], z3.Implies(R[k], z3.And(
        0 <= w, w < Length(seq), nv(seq[w]) == k))))

  def c_create_new(self, it, fn, a, k):
    """Proved: P21 'create'."""
    args = dict(zip(('cls', 'persistence_dir'), a), **k)
    P = 'P20'
    self.ob(it, P, 'extraction: the new manager is for the output directory',
            it.str_t(args['persistence_dir']) == self.OUT)
    fs = args.get('fs')
    self.ob(it, P, 'extraction: the new manager uses the file system given',
            self.given is None or fs is self.given)
    if self.case == 'occupied':
      it.throw(ValueError, 'not empty')
    self.env(it)
    if self.alone:
      p = z3.Const('p', S)
      self.ob(it, P, 'extraction: nothing was written before the new manager', FA([p], z3.Implies(
          DirOf(p) == self.OUT, it.ghost['fs'][p] == NONE)))
    elif it.choose('not empty'):
      it.throw(ValueError, 'not empty')
    self.fault(it)
    self.put(it, self.final_path(self.OUT, 0), Ser(z3.StringVal('1.0.0'), 0, seqs._F.empty))
    m = it.new_obj(a[0])
    m.fields['_persistence_dir'] = SStr(self.OUT)
    m.fields['_fs'] = fs if fs is not None else self.new_fs(it)
    m.fields['_metadata'] = self.new_msg(it, 'DataBagManagerMetadata')
    m.fields['_metadata'].fields['version'] = '1.0.0'
    m.fields['bag_cache'] = None
    return m

  def c_add(self, it, fn, a, k):
    """Proved: P16."""
    args = dict(zip(('self', 'bags_to_add'), a), **k)
    P = 'P20'
    man = args['self']
    V, N, E0 = self.md(it, man)
    self.ob(it, P, 'extraction: the bags go to a new manager of the output directory', z3.And(
        man is not self.man and it.str_t(man.fields['_persistence_dir']) == self.OUT,
        N == 0, Length(E0) == 0))
    B = it.seq_term(args['bags_to_add'])
    E, R = self.E, self.R
    m, m2, q = z3.Ints('m m2 q')
    k = z3.Const('k', Val)
    e = B[m]
    o = self.entry(nv(e))
    inr = z3.And(0 <= m, m < Length(B))
    self.ob(it, P, 'extraction: only bags of the closure', FA([m], z3.Implies(inr, z3.And(
        self.is_name(it, nv(e)), R[nv(e)]))))
    for nm, f in (('its data', BagF(e) == BagAt(FileF(o))),
                  ('its custom metadata', CustF(e) == CustF(o))):
      self.ob(it, P, f'extraction: every bag keeps {nm}', FA([m], z3.Implies(inr, f)))
    d, do = DepsF(e)[q], DepsF(o)[q]
    self.ob(it, P, 'extraction: every bag keeps its dependencies', FA([m, q], z3.Implies(inr, z3.And(
        Length(DepsF(e)) == Length(DepsF(o)),
        z3.Implies(z3.And(0 <= q, q < Length(DepsF(o))), d == do)))))
    self.ob(it, P, 'extraction: each bag once, in the order in which they were added', FA([m, m2], z3.Implies(
        z3.And(0 <= m, m < m2, m2 < Length(B)), NIdx(nv(e)) < NIdx(nv(B[m2])))))
    self.ob(it, P, 'extraction: every bag of the closure is there', FA([k], z3.Implies(
        R[k], self.in_batch(it, B, k))))
    # add_bags: all the bags or none of them
    self.env(it)
    self.fault(it)
    if not self.alone and it.choose('other writer'):
      it.throw(ValueError, 'already present')
    self.count(it, 'commits')
    it.ghost['added'] = True
    return None

  def in_batch(self, it, B, k):
    m = z3.Int('m')
    pos = getattr(self, 'position', None)
    if pos is not None:
      return z3.And(0 <= pos(k), pos(k) < Length(B), nv(B[pos(k)]) == k)
    return z3.Exists([m], z3.And(0 <= m, m < Length(B), nv(B[m]) == k))


def h_copy(branch, case):
  def make(sp):
    def harness(it):
      m = sp.manager(it, cache=False)
      sp.branch = branch
      fs0 = it.ghost['fs']
      D = sp.out_dir(it, case)
      l = sp.request(it)
      given = case != 'alone'
      fs = sp.new_fs(it)
      sp.given = fs if given else None
      name = 'create_branch' if branch else 'extract_bags'
      r, exc = call_method(it, m, name, [l], {
          'with_all_dependents': sp.dependents, 'output_dir': SStr(D), 'fs': fs if given else None})
      no_fault = sp.counted(it, 'faults') == 0
      it.cover(sp.case)
      sp.ob(it, 'P20', 'the source manager is unchanged', sp.same_metadata(it))
      if sp.case == 'occupied':
        sp.ob(it, 'P20', 'an output directory that is not empty is refused', exc is not None)
        sp.ob(it, 'P20', 'an output directory that is not empty is refused with ValueError',
              exc is not None and z3.Implies(no_fault, it.exc_matches(exc, ValueError)))
        return
      if exc is not None:
        unknown = z3.And(it.exc_matches(exc, ValueError), z3.Not(sp.known))
        sp.ob(it, 'P20', 'succeeds for known names and an empty directory',
              sp.case != 'alone' or z3.Or(z3.Not(no_fault), unknown))
        return
      it.cover('done')
      sp.ob(it, 'P20', 'unknown names are rejected', sp.known)
      if branch:
        sp.ob(it, 'P20', 'normal return only after one commit', sp.counted(it, 'commits') == 1)
        sp.ob(it, 'P20', 'the branch is on disk',
              it.ghost['fs'][sp.final_path(D, 0)] == sp.commit_data)
      else:
        sp.ob(it, 'P20', 'normal return only after the bags were added',
              bool(it.ghost.get('added')))
    return harness
  return make


PROOFS = {
    'P20': {f'{n}: {c}': (lambda: CopySpec('P20'), h_copy(n == 'branch', c))
            for n in ('branch', 'extract') for c in ('any', 'occupied', 'alone')},
    'P21': {'open': (lambda: OpenSpec('P21'), h_open),
            'create': (lambda: NewSpec('P21'), h_new)},
    'P19': {'load': (lambda: LoadSpec('P19'), h_load),
            'load_bags': (lambda: LoadAllSpec('P19'), h_load_bags),
            'add_bags': (lambda: AddSpec('P19', True), h_add)},
    'P18': {'closure': (lambda: ClosureSpec('P18'), h_closure),
            'minimal bag': (lambda: MinimalSpec('P18'), h_minimal),
            'sorting': (lambda: LoadSpec('P18'), h_sorting),
            'names': (lambda: ClosureSpec('P18'), h_names)},
    'P16': {'add_bags': (lambda: AddSpec('P16', True), h_add),
            'add_bags rejects': (lambda: AddSpec('P16', False), h_add)},
    'P17': {'add_bags': (lambda: AddSpec('P17', True), h_add)},
}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h


_DBM_TRUSTED = [
    'file system object: rename without overwrite is atomic and has no effect when it raises; open(w)/write/close may fail at any point',
    'all file system objects view the same storage',
    'protobuf messages (CopyFrom, SerializeToString/FromString round trip, repeated fields, Any)',
    'kd.s11n.dump/load round trip, kd.bags.updated as an uninterpreted left fold',
    'concurrent.futures.ThreadPoolExecutor: a submitted task runs once, interleaved with anything; result() re-raises',
    'uuid.uuid1/uuid4: unique', 'z3, cvc5 and the VC generator pyvc/']
_DBM_ASSUMPTIONS = [
    'update numbers stay below 10^12',
    'paths are canonical; file names in committed metadata are bare names',
    'a persistence directory is changed only by managers of this code (the rely condition)',
    'other processes run the same protocol']
TRUSTED = {p: _DBM_TRUSTED for p in ('P16', 'P17', 'P18', 'P19', 'P20', 'P21')}
ASSUMPTIONS = {p: _DBM_ASSUMPTIONS for p in ('P16', 'P17', 'P18', 'P19', 'P20', 'P21')}
ASSUMPTIONS['P18'] = _DBM_ASSUMPTIONS + ['termination of the closure work list is not proved']
