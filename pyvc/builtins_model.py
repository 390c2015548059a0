"""Rules for Python's built-in types and functions (the trusted semantics)."""

import ast
import builtins as _pyb

import z3

from pyvc.core import *  # pylint: disable=wildcard-import
from pyvc.interp import _CONCRETE, _SymTail, _StarSeq, is_z3

_EXC = {
    n: getattr(_pyb, n)
    for n in dir(_pyb)
    if isinstance(getattr(_pyb, n), type)
}


def B(name):
  def deco(fn):
    BUILTINS[name] = Builtin(name, fn)
    return fn
  return deco


BUILTINS = {}


def lookup(it, name):
  if name in BUILTINS:
    return BUILTINS[name]
  if name in _EXC:
    return _EXC[name]
  if name == 'NotImplemented':
    return ExtRef('NotImplemented')
  if name == '__name__':
    return '__name__'
  if name == 'Ellipsis':
    return Ellipsis
  return UNDEF


# ------------------------------------------------------------- sequences ----


def _known_list(it, v):
  return isinstance(v, SVal) and z3.is_app(v.t) and v.t.decl().kind() in (
      z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR) and it.entails(Val.is_lst(v.t)) == 'unsat'


def iter_source(it, v):
  """list of values | GenVal | GenExp | (length, at, seqval)."""
  r = it.spec.iter_opaque(it, v)
  if r is not UNDEF:
    return r
  if isinstance(v, tuple):
    return list(v)
  if isinstance(v, ListObj):
    if v.items is not None:
      return list(v.items)
    s = v.seq
    w = v.wrap
    return (Length(s), (lambda i: w(it, s[i])) if w else (lambda i: it.fv(s[i])), v)
  if isinstance(v, STup):
    s = v.t
    return (Length(s), lambda i: it.fv(s[i]), v)
  if isinstance(v, OwnedList):
    s = it.owned_seq(v)
    return (Length(s), lambda i: it.fv(s[i]), v)
  if isinstance(v, DictObj):
    if v.items is not None:
      return [k for k, _ in v.items]
    ks = it.dict_keyseq(v)
    return (ks.n, lambda i: it.fv(ks.at(i)), keys_enum(it, ks))
  if isinstance(v, KeysView):
    return iter_source(it, v.d)
  if isinstance(v, SetObj):
    if v.items is not None:
      return list(v.items)
    return set_source(it, v)
  if isinstance(v, OwnedSet):
    return set_source(it, owned_set(it, v))
  if isinstance(v, SetDict):
    return set_source(it, sd_keys(it, v))
  if isinstance(v, str):
    return list(v)
  if isinstance(v, EnumPairs):
    if v.on_end is not None:
      raise Unsupported('zip(strict) with different lengths')
    return (v.length, v.at, v)
  if isinstance(v, (GenVal, GenExp)):
    return v
  if isinstance(v, range):
    return list(v)
  if isinstance(v, SymRange):
    lo = v.lo
    return (z3.If(v.hi > lo, v.hi - lo, z3.IntVal(0)),
            lambda i: SInt(z3.simplify(lo + i)), v)
  if isinstance(v, IterObj):
    src = iter_source(it, v.src)
    if isinstance(src, list):
      p = v.fields['pos']
      if isinstance(p, int):
        v.fields['pos'] = len(src)
        it.wr(v, 'pos')
        return src[p:]
    raise Unsupported('iteration over a partially consumed iterator')
  if isinstance(v, Obj):
    m, _ = it.class_attr(v.cls, '__iter__')
    if m is not UNDEF:
      return iter_source(it, it.call(Bound(m, v), [], {}))
  if _known_list(it, v):
    return iter_source(it, STup(Val.litems(v.t)))
  if isinstance(v, SVal):
    v2 = it.unopaque(v)
    if not isinstance(v2, SVal):
      return iter_source(it, v2)
  if v is None or isinstance(v, (int, bool, SInt)):
    it.throw(TypeError, 'not iterable')
  raise Unsupported(f'iteration over {v!r}')


EmptyArr = z3.Function('set_is_empty', z3.ArraySort(Val, z3.BoolSort()), z3.BoolSort())
WitArr = z3.Function('set_element', z3.ArraySort(Val, z3.BoolSort()), Val)


def owned_empty(it, a):
  k = z3.Const('k', Val)
  r = z3.Const('r', a.sort())
  it.axiom(FA([r, k], z3.Implies(z3.And(EmptyArr(r), r[k]), False), patterns=[z3.MultiPattern(EmptyArr(r), r[k])]))
  it.axiom(FA([r], z3.Implies(z3.Not(EmptyArr(r)), r[WitArr(r)]), patterns=[EmptyArr(r)]))
  return EmptyArr(a)


def sd_keys(it, d):
  s = it.new_set()
  s.items = None
  s.dom = d.dom
  s.card = it.fresh('card', z3.IntSort())
  it.assume(s.card >= 0)
  return s


def _sd_items(it, d):
  n, at, e = set_source(it, sd_keys(it, d))
  ks = e.keys
  return EnumPairs(n, lambda i: (it.fv(ks.at(i)), OwnedSet(d, ks.at(i))))


def owned_set(it, o):
  s = it.new_set()
  s.items = None
  s.dom = it.define('owned_set', o.d.mem[o.key])
  s.card = it.fresh('card', z3.IntSort())
  it.assume(s.card >= 0)
  return s


def _os_add(it, o, x):
  d = o.d
  d.mem = it.define('sd_mem', z3.Store(d.mem, o.key, z3.Store(
      d.mem[o.key], it.keyterm(x), z3.BoolVal(True))))
  it.wr(d, '<content>')


def _sd_get(it, d, k, default=None):
  kt = it.keyterm(k)
  if it.branch(d.dom[kt]):
    return OwnedSet(d, kt)
  return default


def set_source(it, v):
  """Some enumeration of a symbolic set (order unknown; the same one as long as
  the set is not modified)."""
  from pyvc import pure
  if pure.enabled(it):
    memo = it.ghost.setdefault('set_enum', {})
    e = memo.get(v.dom.get_id())
    if e is not None and not it.pure:
      return e[1]
    r = _set_source(it, v)
    if not it.pure:
      memo[v.dom.get_id()] = (v.dom, r)
    return r
  return _set_source(it, v)


def _set_source(it, v):
  it.nfresh += 1
  at = z3.Function(f'set_at!{it.nfresh}', z3.IntSort(), Val)
  idx = z3.Function(f'set_idx!{it.nfresh}', Val, z3.IntSort())
  i = z3.Int('i')
  k = z3.Const('k', Val)
  n = v.card
  dom = v.dom
  it.assume(n >= 0)
  it.assume(FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
      dom[at(i)], idx(at(i)) == i)), patterns=[at(i)]))
  it.assume(FA([k], z3.Implies(dom[k], z3.And(
      0 <= idx(k), idx(k) < n, at(idx(k)) == k)), patterns=[dom[k]]))
  ks = KeySeq(n, at, idx)
  return (n, lambda j: it.fv(at(j)), keys_enum(it, ks))


def keys_enum(it, ks):
  e = EnumPairs(ks.n, lambda i: it.fv(ks.at(i)))
  e.keys = ks
  return e


class SymRange:

  def __init__(self, lo, hi):
    self.lo = lo
    self.hi = hi


def as_tuple(it, v):
  """tuple(v)."""
  if isinstance(v, tuple):
    return v
  if isinstance(v, STup):
    return v
  if isinstance(v, ListObj) and v.items is None:
    return STup(v.seq)
  if isinstance(v, OwnedList):
    return STup(it.owned_seq(v))
  if _known_list(it, v):
    return STup(z3.simplify(Val.litems(v.t)))
  r = it.spec.materialize(it, v)
  if r is not UNDEF:
    return r
  src = iter_source(it, v)
  if isinstance(src, list):
    return tuple(src)
  if isinstance(src, GenVal):
    out = it.new_list([])
    it.iterate(src, lambda x: list_append(it, out, x), src.fn.node, src.frame, out)
    return as_tuple(it, out)
  if isinstance(src, GenExp):
    from pyvc import pure
    r = it.pure_comp(src.node, src.frame, pure.comp_list)
    it.given_source = UNDEF
    if r is not UNDEF and type(r).__name__ != '_Source':
      return STup(r)
    it.given_source = r
    out = it.new_list([])
    out.is_acc = True
    it.run_comp(src.node.generators, 0, src.frame_copy(),
                lambda f: list_append(it, out, it.ev(src.node.elt, f)), src.node, out)
    return as_tuple(it, out)
  length, at, seqval = src
  if is_z3(seqval) and seqval.sort() == SeqVal:
    return STup(seqval)
  if isinstance(seqval, STup):
    return seqval
  if isinstance(seqval, EnumPairs):
    s = it.fresh('seq', SeqVal)
    i = z3.Int('i')
    it.assume(Length(s) == length)
    body = it.tv(at(i))
    it.assume(FA([i], z3.Implies(z3.And(0 <= i, i < length), s[i] == body), patterns=[s[i]]))
    return STup(s)
  raise Unsupported(f'tuple of {v!r}')


def list_append(it, l, x):
  r = it.spec.list_item(it, l, x)
  if r is not UNDEF:
    x = r
  if isinstance(l, OwnedList):
    s = it.owned_seq(l)
    l.d.val = z3.Store(l.d.val, l.key, Val.lst(seqs.cat(s, seqs.seq_of_terms([it.tv(x)]))))
    it.wr(l.d, '<content>')
    return
  if l.items is not None:
    l.items.append(x)
  else:
    l.seq = seqs.cat(l.seq, seqs.seq_of_terms([it.tv(x)]))
  it.wr(l, '<content>')


def list_extend(it, l, v):
  t = as_tuple(it, v)
  if isinstance(l, OwnedList):
    s = it.owned_seq(l)
    l.d.val = z3.Store(l.d.val, l.key, Val.lst(seqs.cat(s, it.seq_term(t))))
    it.wr(l.d, '<content>')
    return
  if isinstance(t, tuple) and l.items is not None:
    l.items.extend(t)
  else:
    s = it.seq_term(l)
    l.items = None
    l.seq = seqs.cat(s, it.seq_term(t))
  it.wr(l, '<content>')


def set_update(it, s, v):
  if isinstance(v, OwnedSet):
    v = owned_set(it, v)
  if isinstance(v, SetObj) and (v.items is None or s.items is None):
    it.set_promote(s)
    a = it.set_arr(v)
    k = z3.Const('k', Val)
    nd = it.fresh('union', z3.ArraySort(Val, z3.BoolSort()))
    it.assume(FA([k], nd[k] == z3.Or(s.dom[k], a[k]),
                 patterns=[nd[k]] + arr_pats(k, s.dom, a)))
    s.dom = nd
    s.card = it.fresh('card', z3.IntSort())
    it.assume(s.card >= 0)
    it.wr(s, '<content>')
    return
  src = iter_source(it, v)
  if isinstance(src, list):
    for x in src:
      it.set_add(s, x)
    return
  from pyvc import pure
  if pure.enabled(it):
    if isinstance(src, (GenVal, GenExp)):
      t = as_tuple(it, src)
      if isinstance(t, tuple):
        for x in t:
          it.set_add(s, x)
        return
      src = iter_source(it, t)
    length, at, _ = src
    it.set_promote(s)
    base = s.dom if s.card is None or not z3.is_int_value(s.card) or s.card.as_long() else None
    r = pure.image_set(it, length, None, lambda j: it.keyterm(at(j)),
                       pure.source_patterns(it, at), base)
    s.dom, s.card = r.dom, r.card
    it.wr(s, '<content>')
    return
  if isinstance(src, (GenVal, GenExp)):
    t = as_tuple(it, src)
    if isinstance(t, tuple):
      for x in t:
        it.set_add(s, x)
      return
    sq = t.t
  else:
    sq = as_tuple(it, v)
    sq = it.seq_term(sq)
  it.set_promote(s)
  k = z3.Const('k', Val)
  nd = it.fresh('union', z3.ArraySort(Val, z3.BoolSort()))
  pats = [nd[k]]
  if seqs.ABS[0]:
    pats += arr_pats(k, s.dom) + [seqs.has(sq, k)]
  it.assume(FA([k], nd[k] == z3.Or(s.dom[k], seqs.has(sq, k)), patterns=pats))
  s.dom = nd
  s.card = it.fresh('card', z3.IntSort())
  it.assume(s.card >= 0)
  it.wr(s, '<content>')


def dict_update(it, d, v):
  if isinstance(v, DictObj) and v.items is not None:
    for k, x in v.items:
      it.dict_set(d, k, x)
    return
  if isinstance(v, DictObj) and d.items is not None and not d.items:
    d.items = None
    s = v.snapshot()
    d.dom, d.val, d.ord, d.nxt, d.card = s.dom, s.val, s.ord, s.nxt, s.card
    d.wrap = s.wrap
    it.wr(d, '<content>')
    return
  if isinstance(v, (tuple, ListObj)):
    for p in as_tuple(it, v):
      k, x = as_tuple(it, p)
      it.dict_set(d, k, x)
    return
  raise Unsupported('dict.update with a symbolic mapping')


def dict_copy(it, d):
  o = DictObj(it.newref(), it.tick(), None)
  it.objs[o.ref] = o
  if d.items is not None:
    o.items = [list(x) for x in d.items]
  else:
    s = d.snapshot()
    o.dom, o.val, o.ord, o.nxt, o.card = s.dom, s.val, s.ord, s.nxt, s.card
    o.measures = dict(d.measures)
    o.wrap = d.wrap
    o.owns_lists = d.owns_lists
  return o


# --------------------------------------------------------------- methods ----


def method(it, v, name):
  if isinstance(v, ListObj):
    tab = _LIST
  elif isinstance(v, OwnedSet):
    tab = {'add': _os_add}
  elif isinstance(v, SetDict):
    tab = {'get': _sd_get, 'keys': sd_keys, 'items': _sd_items}
  elif isinstance(v, OwnedList):
    tab = _LIST
  elif isinstance(v, DictObj):
    tab = _DICT
  elif isinstance(v, SetObj):
    tab = _SET
  elif isinstance(v, (str, SStr)):
    if isinstance(v, SStr):
      r = it.spec.str_method(it, v, name)
      if r is not UNDEF:
        return r
    tab = _STR
  elif isinstance(v, (tuple, STup)):
    tab = _TUPLE
  elif isinstance(v, FuncVal):
    if name == '__name__':
      return v.qualname.split('.')[-1]
    if name == '__doc__':
      return None
    return UNDEF
  elif isinstance(v, slice):
    return getattr(v, name) if name in ('start', 'stop', 'step') else UNDEF
  elif isinstance(v, type):
    if name == '__name__':
      return v.__name__
    if (v, name) in _TYPE_ATTR:
      return _TYPE_ATTR[(v, name)]
    if name == 'fromkeys' and v is dict:
      return Builtin('dict.fromkeys', _fromkeys)
    return UNDEF
  elif isinstance(v, float):
    return UNDEF
  else:
    return UNDEF
  if name not in tab:
    return UNDEF
  f = tab[name]
  return Builtin(f'{type(v).__name__}.{name}', lambda it_, a, k: f(it_, v, *a, **k))


_TYPE_ATTR = {}


def _fromkeys(it, a, k):
  d = it.new_dict()
  val = a[1] if len(a) > 1 else None
  src = iter_source(it, a[0])
  if not isinstance(src, list):
    raise Unsupported('dict.fromkeys symbolic')
  for x in src:
    it.dict_set(d, x, val)
  return d


def _l_append(it, l, x):
  list_append(it, l, x)


def _l_pop(it, l, i=-1):
  if isinstance(l, ListObj) and l.items is not None:
    if not isinstance(i, int):
      raise Unsupported('list.pop symbolic index')
    if not -len(l.items) <= i < len(l.items):
      it.throw(IndexError)
    x = l.items.pop(i)
    it.wr(l, '<content>')
    return x
  s = it.seq_term(l)
  n = Length(s)
  if not it.branch(n > 0):
    it.throw(IndexError)
  w = l.wrap or (lambda it_, t: it_.fv(t))
  if i == -1:
    x = w(it, s[n - 1])
    l.seq = seqs.sub(s, z3.IntVal(0), n - 1)
  elif i == 0:
    x = w(it, s[0])
    l.seq = seqs.sub(s, z3.IntVal(1), n - 1)
  else:
    raise Unsupported('list.pop index')
  it.wr(l, '<content>')
  return x


def _l_insert(it, l, i, x):
  if l.items is not None and isinstance(i, int):
    l.items.insert(i, x)
  elif i == 0:
    l.seq = seqs.cat(seqs.seq_of_terms([it.tv(x)]), it.seq_term(l))
    l.items = None
  else:
    raise Unsupported('list.insert')
  it.wr(l, '<content>')


def _l_copy(it, l):
  if isinstance(l, ListObj) and l.items is not None:
    return it.new_list(l.items)
  return it.new_list_sym(it.seq_term(l))


def _l_reverse(it, l):
  if l.items is None:
    raise Unsupported('reverse')
  l.items.reverse()
  it.wr(l, '<content>')


def _l_clear(it, l):
  l.items = []
  it.wr(l, '<content>')


def _l_sort(it, l, **kw):
  r = BUILTINS['sorted'].fn(it, [l], kw)
  l.items = r.items
  l.seq = r.seq
  it.wr(l, '<content>')


def _l_index(it, l, x):
  items = l.items if isinstance(l, ListObj) else l
  if not isinstance(items, (list, tuple)):
    raise Unsupported('index')
  for i, y in enumerate(items):
    if it.branch(it.eq(y, x)):
      return i
  it.throw(ValueError)


_LIST = {
    'append': _l_append,
    'extend': list_extend,
    'pop': _l_pop,
    'insert': _l_insert,
    'copy': _l_copy,
    'reverse': _l_reverse,
    'clear': _l_clear,
    'sort': _l_sort,
    'index': _l_index,
}
_TUPLE = {'index': _l_index}


def _d_get(it, d, k, default=None):
  return it.dict_get(d, k, default)


def _d_pop(it, d, k, *default):
  return it.dict_pop(d, k, *default)


def _d_setdefault(it, d, k, default=None):
  h = it.dict_has(d, k)
  if not it.branch(h):
    if isinstance(default, ListObj) and d.items is not None and not isinstance(
        k, _CONCRETE):
      it.dict_promote(d)
    it.dict_set(d, k, default)
  return it.dict_get(d, k)


def _d_items(it, d):
  if d.items is not None:
    return tuple((k, v) for k, v in d.items)
  ks = it.dict_keyseq(d)
  snap = d.snapshot()

  kw = getattr(d, 'keywrap', None)

  def at(i):
    return (kw(it, ks.at(i)) if kw else it.fv(ks.at(i)), _snap_read(it, snap, ks.at(i)))

  e = EnumPairs(ks.n, at)
  e.keys = ks
  e.snap = snap
  return e


def _snap_read(it, snap, kt):
  if snap.owns_lists:
    return SVal(snap.val[kt])
  return snap.wrap(it, snap.val[kt]) if snap.wrap else it.fv(snap.val[kt])


def _d_values(it, d):
  if d.items is not None:
    return tuple(v for _, v in d.items)
  ks = it.dict_keyseq(d)
  snap = d.snapshot()
  e = EnumPairs(ks.n, lambda i: _snap_read(it, snap, ks.at(i)))
  e.keys = ks
  e.snap = snap
  return e


def _d_keys(it, d):
  return KeysView(d)


class KeysView:

  def __init__(self, d):
    self.d = d


def _d_clear(it, d):
  d.items = []
  d.owns_lists = False
  d.measures = {m: (w, z3.IntVal(0)) for m, (w, _) in d.measures.items()}
  d.version += 1
  it.wr(d, '<content>')


def _d_popitem(it, d, last=True):
  if d.items is not None:
    if not d.items:
      it.throw(KeyError)
    k, v = d.items.pop(-1 if last else 0)
    it.wr(d, '<content>')
    return (k, v)
  it.dict_facts(d)
  if not it.branch(d.card > 0):
    it.throw(KeyError)
  kt = _extreme_key(it, d, last)
  v = it.dict_read(d, kt)
  it.sd_remove(d, kt)
  d.version += 1
  it.wr(d, '<content>')
  return (it.fv(kt), v)


def _extreme_key(it, d, last):
  kt = it.fresh('extkey', Val)
  j = z3.Const('j', Val)
  it.assume(d.dom[kt])
  c = (d.ord[j] <= d.ord[kt]) if last else (d.ord[kt] <= d.ord[j])
  it.assume(FA([j], z3.Implies(d.dom[j], c), patterns=[d.dom[j]]))
  return kt


def _d_move_to_end(it, d, k, last=True):
  if d.items is not None:
    i = it.dict_find(d, k)
    if i is None:
      it.throw(KeyError)
    e = d.items.pop(i)
    d.items.insert(len(d.items) if last else 0, e)
  else:
    kt = it.keyterm(k)
    if not it.branch(d.dom[kt]):
      it.throw(KeyError)
    if not last:
      raise Unsupported('move_to_end(last=False)')
    d.ord = it.define('ord', z3.Store(d.ord, kt, d.nxt))
    d.nxt = d.nxt + 1
  d.version += 1
  it.wr(d, '<content>')


_DICT = {
    'get': _d_get,
    'pop': _d_pop,
    'setdefault': _d_setdefault,
    'items': _d_items,
    'values': _d_values,
    'keys': _d_keys,
    'clear': _d_clear,
    'popitem': _d_popitem,
    'move_to_end': _d_move_to_end,
    'copy': lambda it, d: dict_copy(it, d),
    'update': lambda it, d, *a, **k: (
        [dict_update(it, d, x) for x in a],
        [it.dict_set(d, kk, vv) for kk, vv in k.items()], None)[-1],
}


def _s_remove(it, s, x):
  c = it.contains(s, x)
  if not it.branch(c):
    it.throw(KeyError)
  _s_discard(it, s, x)


def _s_discard(it, s, x):
  if s.items is not None:
    out = []
    for y in s.items:
      e = it.keyterm(y) == it.keyterm(x)
      if not it.branch(e):
        out.append(y)
    s.items = out
  else:
    kt = it.keyterm(x)
    s.card = z3.If(s.dom[kt], s.card - 1, s.card)
    s.dom = z3.Store(s.dom, kt, z3.BoolVal(False))
  it.wr(s, '<content>')


def arr_pats(k, *arrs):
  """Further triggers: membership in the operands."""
  if not seqs.ABS[0]:
    return []
  return [a[k] for a in arrs if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def set_binop(it, op, a, b):
  if a.items is not None and b.items is not None:
    r = it.new_set()
    if op == 'or':
      for x in a.items + b.items:
        it.set_add(r, x)
    elif op == 'and':
      for x in a.items:
        if it.branch(it.contains(b, x)):
          r.items.append(x)
    elif op == 'sub':
      for x in a.items:
        if not it.branch(it.contains(b, x)):
          r.items.append(x)
    else:
      raise Unsupported('set op')
    return r
  r = it.new_set()
  r.items = None
  A, Bb = it.set_arr(a), it.set_arr(b)
  k = z3.Const('k', Val)
  r.dom = it.fresh('setop', z3.ArraySort(Val, z3.BoolSort()))
  r.card = it.fresh('card', z3.IntSort())
  f = {'or': z3.Or(A[k], Bb[k]), 'and': z3.And(A[k], Bb[k]),
       'sub': z3.And(A[k], z3.Not(Bb[k]))}[op]
  it.assume(FA([k], r.dom[k] == f, patterns=[r.dom[k]] + arr_pats(k, A, Bb)))
  it.assume(r.card >= 0)
  it.assume((r.card == 0) == FA([k], z3.Not(r.dom[k]), patterns=[r.dom[k]]))
  return r


def as_set(it, v):
  if isinstance(v, SetObj):
    return v
  if isinstance(v, SetDict):
    return sd_keys(it, v)
  s = it.new_set()
  if isinstance(v, KeysView):
    v = v.d
  if isinstance(v, OwnedSet):
    return owned_set(it, v)
  if isinstance(v, DictObj) and v.items is None:
    s.items = None
    s.dom = v.dom
    s.card = v.card
    return s
  set_update(it, s, v)
  return s


def _s_pop(it, s):
  from pyvc import pure
  if s.items is not None:
    if len(s.items) == 0:
      it.throw(KeyError)
    if len(s.items) == 1:
      it.wr(s, '<content>')
      return s.items.pop()
    it.set_promote(s)
  pure.set_facts(it, s)
  if not it.branch(s.card > 0):
    it.throw(KeyError)
  x = it.fresh('popped', Val)
  it.assume(s.dom[x])
  s.dom = it.define('set', z3.Store(s.dom, x, z3.BoolVal(False)))
  s.card = z3.simplify(s.card - 1)
  it.wr(s, '<content>')
  return it.fv(x)


_SET = {
    'pop': _s_pop,
    'add': lambda it, s, x: it.set_add(s, x),
    'remove': _s_remove,
    'discard': _s_discard,
    'update': lambda it, s, *a: ([set_update(it, s, x) for x in a], None)[-1],
    'copy': lambda it, s: set_binop(it, 'or', s, it.new_set()),
    'union': lambda it, s, *a: _fold(it, 'or', s, a),
    'intersection': lambda it, s, *a: _fold(it, 'and', s, a),
    'difference': lambda it, s, *a: _fold(it, 'sub', s, a),
    'issubset': lambda it, s, o: _wrapb(subset(it, s, as_set(it, o))),
    'issuperset': lambda it, s, o: _wrapb(subset(it, as_set(it, o), s)),
    'isdisjoint': lambda it, s, o: _wrapb(_disjoint(it, s, as_set(it, o))),
    'clear': lambda it, s: (setattr(s, 'items', []), it.wr(s, '<content>'), None)[-1],
}


def _fold(it, op, s, others):
  r = set_binop(it, 'or', s, it.new_set())
  for o in others:
    r = set_binop(it, op, r, as_set(it, o))
  return r


def subset(it, a, b):
  if a.items is not None:
    return it.conj([it.contains(b, x) for x in a.items])
  k = z3.Const('k', Val)
  A, Bb = it.set_arr(a), it.set_arr(b)
  return FA([k], z3.Implies(A[k], Bb[k]))


def _disjoint(it, a, b):
  if a.items is not None:
    return it.conj([(lambda c: (not c) if isinstance(c, bool) else z3.Not(c))(
        it.contains(b, x)) for x in a.items])
  k = z3.Const('k', Val)
  A, Bb = it.set_arr(a), it.set_arr(b)
  return FA([k], z3.Not(z3.And(A[k], Bb[k])))


def _wrapb(f):
  return f if isinstance(f, bool) else SBool(f)


def wrap_str(t):
  t = z3.simplify(t)
  if z3.is_string_value(t) and '\\' not in t.as_string():
    return t.as_string()
  return SStr(t)


def _conc(*xs):
  return all(isinstance(x, (str, int, type(None))) for x in xs)


def _st_startswith(it, s, p):
  if isinstance(p, tuple):
    return _wrapb(it.disj([it.truth(_st_startswith(it, s, x)) for x in p]))
  if _conc(s, p):
    return s.startswith(p)
  return SBool(z3.PrefixOf(it.str_t(p), it.str_t(s)))


def _st_endswith(it, s, p):
  if isinstance(p, tuple):
    return _wrapb(it.disj([it.truth(_st_endswith(it, s, x)) for x in p]))
  if _conc(s, p):
    return s.endswith(p)
  return SBool(z3.SuffixOf(it.str_t(p), it.str_t(s)))


def _st_join(it, s, v):
  items = as_tuple(it, v)
  if isinstance(items, STup):
    r = it.spec.sym_join(it, s, items)
    if r is not UNDEF:
      return r
    return SStr(it.fresh('join', z3.StringSort()))
  if all(isinstance(x, str) for x in items) and isinstance(s, str):
    return s.join(items)
  if any(isinstance(x, SVal) for x in items):
    return SStr(it.fresh('join', z3.StringSort()))
  if not items:
    return ''
  parts = []
  for i, x in enumerate(items):
    if i:
      parts.append(it.str_t(s))
    parts.append(it.str_t(x))
  return wrap_str(z3.Concat(*parts) if len(parts) > 1 else parts[0])


def _st_find(it, s, sub, start=0):
  if _conc(s, sub, start):
    return s.find(sub, start)
  return SInt(z3.IndexOf(it.str_t(s), it.str_t(sub), it.int_t(start)))


def _st_index(it, s, sub, start=0):
  r = _st_find(it, s, sub, start)
  if it.branch(it.eq(r, -1)):
    it.throw(ValueError)
  return r


def _st_replace(it, s, a, b, n=-1):
  if _conc(s, a, b, n):
    return s.replace(a, b, n)
  raise Unsupported('str.replace symbolic')


def _opaque_str(name):
  def f(it, s, *a, **k):
    if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
      return getattr(s, name)(*a, **k)
    raise Unsupported(f'str.{name} symbolic')
  return f


def _st_removeprefix(it, s, p):
  if _conc(s, p):
    return s.removeprefix(p)
  if it.test(_st_startswith(it, s, p)):
    st, pt = it.str_t(s), it.str_t(p)
    r = _minus(st, pt)
    if r is not None:
      return wrap_str(r)
    r = it.fresh('rest', z3.StringSort())
    it.assume(st == z3.Concat(pt, r))
    return SStr(r)
  return s


def _parts(t):
  t = z3.simplify(t)
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
    return [y for x in t.children() for y in _parts(x)]
  return [t]


def _minus(st, pt):
  """st without its prefix pt, where that is visible in the term."""
  a, b = _parts(st), _parts(pt)
  while b:
    if not a:
      return None
    if a[0].eq(b[0]):
      a, b = a[1:], b[1:]
    elif z3.is_string_value(a[0]) and z3.is_string_value(b[0]):
      x, y = a[0].as_string(), b[0].as_string()
      if '\\' in x + y:
        return None
      if x.startswith(y):
        a, b = [z3.StringVal(x[len(y):])] + a[1:], b[1:]
      elif y.startswith(x):
        a, b = a[1:], [z3.StringVal(y[len(x):])] + b[1:]
      else:
        return None
    else:
      return None
  if not a:
    return z3.StringVal('')
  return z3.Concat(*a) if len(a) > 1 else a[0]


def _pieces(it, st, lens):
  """st cut into pieces of the given lengths and a rest (lengths in range)."""
  out = [it.fresh('piece', z3.StringSort()) for _ in lens]
  out.append(it.fresh('piece', z3.StringSort()))
  it.assume(st == z3.Concat(*out))
  for x, n in zip(out, lens):
    it.assume(Length(x) == n)
  return out


def _st_removesuffix(it, s, p):
  if _conc(s, p):
    return s.removesuffix(p)
  if it.test(_st_endswith(it, s, p)):
    st, pt = it.str_t(s), it.str_t(p)
    r = it.fresh('rest', z3.StringSort())
    it.assume(st == z3.Concat(r, pt))
    return SStr(r)
  return s


def _first(it, s, sep):
  """(before, rest): s = before + rest, rest empty or starting with the first
  occurrence of sep."""
  st, pt = it.str_t(s), it.str_t(sep)
  if it.branch(Length(pt) == 0):
    it.throw(ValueError)
  p, r = it.fresh('pre', z3.StringSort()), it.fresh('post', z3.StringSort())
  it.assume(st == z3.Concat(p, r))
  it.assume(z3.Not(z3.Contains(p, pt)))
  it.assume(z3.Or(z3.And(r == z3.StringVal(''), z3.Not(z3.Contains(st, pt))),
                  z3.PrefixOf(pt, r)))
  if not (isinstance(sep, str) and len(set(sep)) == len(sep)):
    it.assume(z3.Implies(z3.Contains(st, pt), Length(p) == z3.IndexOf(st, pt, z3.IntVal(0))))
  return SStr(p), SStr(r)


class SplitVal:
  """s.split(sep): only the first part is known."""

  def __init__(self, s, sep):
    self.s = s
    self.sep = sep


def _st_split(it, s, sep=None, maxsplit=-1):
  if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(maxsplit, int):
    return it.new_list(s.split(sep, maxsplit))
  if sep is None or maxsplit == 0:
    raise Unsupported('str.split symbolic')
  return SplitVal(s, sep)


def _st_partition(it, s, sep):
  if _conc(s, sep):
    return s.partition(sep)
  p, r = _first(it, s, sep)
  if it.branch(Length(r.t) == 0):
    return (p, '', '')
  return (p, sep, _st_removeprefix(it, r, sep))


IsIdent = z3.Function('str_isidentifier', z3.StringSort(), z3.BoolSort())


def ident_facts(t):
  """What every Python identifier satisfies."""
  return z3.Implies(IsIdent(t), z3.And(
      Length(t) > 0, *[z3.Not(z3.Contains(t, z3.StringVal(c))) for c in '.[](:"\')']))


def _st_isidentifier(it, s):
  if isinstance(s, str):
    return s.isidentifier()
  it.assume(ident_facts(s.t))
  return SBool(IsIdent(s.t))


_STR = {
    'split': _st_split,
    'partition': _st_partition,
    'isidentifier': _st_isidentifier,
    'startswith': _st_startswith,
    'endswith': _st_endswith,
    'join': _st_join,
    'find': _st_find,
    'index': _st_index,
    'replace': _st_replace,
    'removeprefix': _st_removeprefix,
    'removesuffix': _st_removesuffix,
    **{n: _opaque_str(n) for n in (
        'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'rsplit',
        'isdigit', 'zfill', 'format', 'rpartition',
        'encode', 'title', 'count', 'rfind', 'splitlines', 'isalnum', 'isalpha')},
}


def contains(it, c, x):
  if isinstance(c, KeysView):
    return it.dict_has(c.d, x)
  if isinstance(c, range) and isinstance(x, (int, SInt)):
    if isinstance(x, int):
      return x in c
    return z3.And(x.t >= c.start, x.t < c.stop) if c.step == 1 else UNDEF
  if isinstance(c, EnumPairs):
    t = as_tuple(it, c)
    return it.contains(t, x)
  if isinstance(c, (GenVal, GenExp)):
    t = as_tuple(it, c)
    return it.contains(t, x)
  return UNDEF


# ------------------------------------------------------------- operators ----


def binop(it, op, a, b):
  num = (bool, int, SInt, SBool)
  real = (float, SReal)
  if isinstance(a, _CONCRETE) and isinstance(b, _CONCRETE):
    try:
      return {
          ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
          ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
          ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
          ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b,
          ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
          ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
      }[type(op)]()
    except (TypeError, ZeroDivisionError, ValueError) as e:
      it.throw(type(e))
  if isinstance(op, ast.BitOr) and isinstance(a, (type, ClassVal, ExtRef)):
    u = ExtRef(f'union[{a!r},{b!r}]')
    u.members = getattr(a, 'members', (a,)) + getattr(b, 'members', (b,))
    return u
  if isinstance(a, num) and isinstance(b, num):
    x, y = it.int_t(a), it.int_t(b)
    if isinstance(op, ast.Add):
      return SInt(z3.simplify(x + y))
    if isinstance(op, ast.Sub):
      return SInt(z3.simplify(x - y))
    if isinstance(op, ast.Mult):
      return SInt(x * y)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
      if it.branch(y == 0):
        it.throw(ZeroDivisionError)
      if it.entails(y > 0) == 'unsat':
        return SInt(x / y) if isinstance(op, ast.FloorDiv) else SInt(x % y)
      raise Unsupported('floor division by a possibly negative number')
    if isinstance(op, ast.Div):
      if it.branch(y == 0):
        it.throw(ZeroDivisionError)
      return SReal(z3.ToReal(x) / z3.ToReal(y))
    if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(
        a, (bool, SBool)) and isinstance(b, (bool, SBool)):
      f = z3.And if isinstance(op, ast.BitAnd) else z3.Or
      return SBool(f(it.truth(a), it.truth(b)))
    raise Unsupported(f'integer operator {type(op).__name__}')
  if isinstance(a, num + real) and isinstance(b, num + real):
    x, y = it.real_t(a), it.real_t(b)
    if isinstance(op, ast.Add):
      return SReal(x + y)
    if isinstance(op, ast.Sub):
      return SReal(x - y)
    if isinstance(op, ast.Mult):
      return SReal(x * y)
    if isinstance(op, ast.Div):
      if it.branch(y == 0):
        it.throw(ZeroDivisionError)
      return SReal(x / y)
    raise Unsupported('float operator')
  if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
    if isinstance(op, ast.Add):
      return wrap_str(z3.Concat(it.str_t(a), it.str_t(b)))
  if isinstance(op, ast.Add):
    if isinstance(a, tuple) and isinstance(b, tuple):
      return a + b
    if isinstance(a, (tuple, STup)) and isinstance(b, (tuple, STup)):
      return STup(seqs.cat(it.seq_term(a), it.seq_term(b)))
    if isinstance(a, ListObj) and isinstance(b, ListObj):
      if a.items is not None and b.items is not None:
        return it.new_list(a.items + b.items)
      return it.new_list_sym(seqs.cat(it.seq_term(a), it.seq_term(b)))
  if isinstance(a, (SetObj, KeysView)) and isinstance(b, (SetObj, KeysView)):
    a, b = as_set(it, a), as_set(it, b)
    n = {ast.BitOr: 'or', ast.BitAnd: 'and', ast.Sub: 'sub'}.get(type(op))
    if n:
      return set_binop(it, n, a, b)
  if isinstance(a, DictObj) and isinstance(b, DictObj) and isinstance(op, ast.BitOr):
    r = dict_copy(it, a)
    dict_update(it, r, b)
    return r
  if isinstance(op, ast.Mult) and isinstance(a, (tuple, str)) and isinstance(b, int):
    return a * b
  if isinstance(op, ast.Mult) and isinstance(a, ListObj) and isinstance(b, int) and a.items is not None:
    return it.new_list(a.items * b)
  if isinstance(op, ast.Mod) and isinstance(a, str):
    return SStr(it.fresh('fmt', z3.StringSort()))
  if a is None or b is None:
    it.throw(TypeError, 'unsupported operand')
  raise Unsupported(f'operator {type(op).__name__} on {a!r}, {b!r}')


def order(it, op, a, b):
  if isinstance(a, Obj) or isinstance(b, Obj):
    n = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
    if isinstance(a, Obj):
      m, _ = it.class_attr(a.cls, f'__{n}__')
      if m is not UNDEF:
        return it.truth(it.call(Bound(m, a), [b], {}))
    raise Unsupported('ordering of objects')
  if isinstance(a, SVal) or isinstance(b, SVal):
    r = it.spec.opaque_order(it, op, a, b)
    if r is not UNDEF:
      return r
  a, b = it.unopaque(a), it.unopaque(b)
  f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
       ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
  if isinstance(a, _CONCRETE) and isinstance(b, _CONCRETE):
    try:
      return f(a, b)
    except TypeError:
      it.throw(TypeError)
  num = (bool, int, SInt, SBool)
  if isinstance(a, num) and isinstance(b, num):
    return f(it.int_t(a), it.int_t(b))
  nr = num + (float, SReal)
  if isinstance(a, nr) and isinstance(b, nr):
    return f(it.real_t(a), it.real_t(b))
  if isinstance(a, (SetObj, KeysView)) and isinstance(b, (SetObj, KeysView)):
    a, b = as_set(it, a), as_set(it, b)
    if isinstance(op, ast.LtE):
      return subset(it, a, b)
    if isinstance(op, ast.GtE):
      return subset(it, b, a)
  if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
    x, y = it.str_t(a), it.str_t(b)
    return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[type(op)]
  if a is None or b is None:
    it.throw(TypeError)
  raise Unsupported(f'ordering of {a!r}, {b!r}')


def norm_index(it, k, n):
  """Python index -> in-range z3/int index, or IndexError."""
  if isinstance(k, SVal):
    k = it.unopaque(k)
  if isinstance(k, (SBool, bool)):
    k = SInt(it.int_t(k))
  if not isinstance(k, (int, SInt)):
    it.throw(TypeError, 'index')
  kt = it.int_t(k)
  if not it.branch(z3.And(kt >= -n, kt < n)):
    it.throw(IndexError)
  if it.branch(kt >= 0):
    return kt
  return kt + n


def getitem(it, o, k):
  if isinstance(o, SplitVal):
    if k == 0 and isinstance(k, int):
      return _first(it, o.s, o.sep)[0]
    raise Unsupported('part of a symbolic split')
  if isinstance(o, DictObj):
    return it.dict_get(o, k)
  if isinstance(o, OwnedList):
    o = STup(it.owned_seq(o))
  if isinstance(o, (tuple, str)) or (isinstance(o, ListObj) and o.items is not None):
    items = o.items if isinstance(o, ListObj) else o
    if isinstance(k, slice):
      if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
        r = items[k]
        return it.new_list(r) if isinstance(o, ListObj) else r
      if isinstance(o, str):
        return str_slice(it, o, k)
      r = seq_slice(it, it.seq_of(items), k)
      return it.new_list_sym(r) if isinstance(o, ListObj) else STup(r)
    if isinstance(k, int):
      if not -len(items) <= k < len(items):
        it.throw(IndexError)
      return items[k]
    if isinstance(k, (SInt, SVal)):
      kk = norm_index(it, k, len(items))
      for i in range(len(items)):
        if it.branch(kk == i):
          return items[i]
      raise PathEnd()
    it.throw(TypeError)
  if isinstance(o, (STup, ListObj)):
    s = it.seq_term(o)
    w = getattr(o, 'wrap', None)
    if isinstance(k, slice):
      r = seq_slice(it, s, k)
      return STup(r) if isinstance(o, STup) else it.new_list_sym(r)
    i = norm_index(it, k, Length(s))
    return w(it, s[i]) if w else it.fv(s[i])
  if isinstance(o, SStr):
    if isinstance(k, slice):
      return str_slice(it, o, k)
    i = norm_index(it, k, Length(o.t))
    ps = _parts(o.t)
    if isinstance(k, int) and k >= 0 and z3.is_string_value(ps[0]) and '\\' not in ps[0].as_string() and len(ps[0].as_string()) > k:
      return ps[0].as_string()[k]
    if it.pure:
      return SStr(z3.SubString(o.t, i, 1))
    return SStr(_pieces(it, o.t, [z3.simplify(i), z3.IntVal(1)])[1])
  if isinstance(o, EnumPairs):
    i = norm_index(it, k, o.length)
    return o.at(i)
  if isinstance(o, Builtin) or isinstance(o, type):
    return o
  raise Unsupported(f'subscript of {o!r}')


def _clamp(it, x, n, dflt):
  if x is None:
    return dflt
  t = it.int_t(it.unopaque(x))
  t = z3.If(t < 0, t + n, t)
  return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))


def seq_slice(it, s, k):
  if k.step is not None and k.step != 1:
    raise Unsupported('slice step')
  n = Length(s)
  lo = _clamp(it, k.start, n, z3.IntVal(0))
  hi = _clamp(it, k.stop, n, n)
  ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
  return z3.simplify(seqs.sub(s, lo, ln))


def str_slice(it, o, k):
  if k.step is not None and k.step != 1:
    raise Unsupported('slice step')
  s = it.str_t(o)
  n = Length(s)
  lo = _clamp(it, k.start, n, z3.IntVal(0))
  hi = _clamp(it, k.stop, n, n)
  ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
  if isinstance(k.start, int) and k.start >= 0 and k.stop is None:
    ps = _parts(s)
    if z3.is_string_value(ps[0]) and '\\' not in ps[0].as_string() and len(ps[0].as_string()) >= k.start:
      return wrap_str(_minus(s, z3.StringVal(ps[0].as_string()[:k.start])))
    if it.branch(n >= k.start):
      return SStr(_pieces(it, s, [z3.IntVal(k.start)])[1])
    return ''
  if it.pure:
    return wrap_str(z3.SubString(s, lo, ln))
  return wrap_str(_pieces(it, s, [z3.simplify(lo), z3.simplify(ln)])[1])


# ------------------------------------------------------------- builtins -----


@B('len')
def _len(it, a, k):
  v = a[0]
  if isinstance(v, SVal):
    v = it.unopaque(v)
  if isinstance(v, (tuple, str, bytes)):
    return len(v)
  if isinstance(v, OwnedSet):
    n = it.fresh('card', z3.IntSort())
    it.assume(z3.And(n >= 0, (n == 0) == owned_empty(it, v.d.mem[v.key])))
    return SInt(n)
  if isinstance(v, ListObj):
    return len(v.items) if v.items is not None else SInt(Length(v.seq))
  if isinstance(v, STup):
    return SInt(Length(v.t))
  if isinstance(v, SStr):
    return SInt(Length(v.t))
  if isinstance(v, OwnedList):
    return SInt(Length(it.owned_seq(v)))
  if isinstance(v, KeysView):
    v = v.d
  if isinstance(v, DictObj):
    it.spec.on_dict(it, v, 'len')
    if v.items is not None:
      return len(v.items)
    it.dict_facts(v)
    from pyvc import pure
    if pure.enabled(it):
      pure.card_facts(it, v.card, v.dom)
    return SInt(v.card)
  if isinstance(v, SetObj):
    if v.items is not None:
      return len(v.items)
    from pyvc import pure
    if pure.enabled(it):
      pure.set_facts(it, v)
      pure.card_facts(it, v.card, v.dom)
    return SInt(v.card)
  if isinstance(v, EnumPairs):
    return SInt(v.length)
  if isinstance(v, range):
    return len(v)
  if isinstance(v, Obj):
    m, _ = it.class_attr(v.cls, '__len__')
    if m is not UNDEF:
      return it.call(Bound(m, v), [], {})
  if v is None or isinstance(v, (int, SInt)):
    it.throw(TypeError)
  raise Unsupported(f'len of {v!r}')


def isinstance_(it, v, c):
  if isinstance(c, tuple):
    return it.disj([isinstance_(it, v, x) for x in c])
  r = it.spec.isinstance_(it, v, c)
  if r is not UNDEF:
    return r
  if getattr(c, 'members', None):
    return it.disj([isinstance_(it, v, type(None) if x is None else x) for x in c.members])
  if c is object:
    return True
  if isinstance(v, Obj):
    return it.is_subclass(v.cls, c)
  py = {SInt: int, SBool: bool, SStr: str, SReal: float, STup: tuple,
        ListObj: list, DictObj: dict, SetObj: set, tuple: tuple, OwnedList: list}
  if isinstance(v, _CONCRETE) or type(v) in py or isinstance(v, slice):
    t = py.get(type(v), type(v))
    if isinstance(c, type):
      return issubclass(t, c)
    if isinstance(c, ExtRef):
      nm = c.name.rsplit('.', 1)[-1]
      abcs = {'Sequence': (list, tuple, str), 'Mapping': (dict,), 'Iterable': (list, tuple, dict, set, str),
              'Collection': (list, tuple, dict, set, str), 'Set': (set,), 'Hashable': (int, str, tuple, bool, float, type(None)),
              'Callable': ()}
      if nm in abcs:
        return t in abcs[nm]
    return False
  if isinstance(v, SVal):
    t = v.t
    if c is type(None):
      return Val.is_none(t)
    if c is bool:
      return Val.is_bool(t)
    if c is int:
      return z3.Or(Val.is_int(t), Val.is_bool(t))
    if c is float:
      return Val.is_real(t)
    if c is str:
      return Val.is_str(t)
    if c is tuple:
      return Val.is_tup(t)
    return z3.And(Val.is_ref(t), IsA(Val.id(t), it.class_tag(c)))
  if isinstance(v, (ClassVal, type)):
    return c is type
  if isinstance(v, (FuncVal, Bound, Builtin, PartialVal)):
    return False
  raise Unsupported(f'isinstance({v!r}, {c!r})')


@B('isinstance')
def _isinstance(it, a, k):
  c = a[1]
  return _wrapb(isinstance_(it, a[0], c))


@B('issubclass')
def _issubclass(it, a, k):
  r = it.spec.issubclass_(it, a[0], a[1])
  if r is not UNDEF:
    return _wrapb(r)
  if isinstance(a[0], (type, ClassVal)):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(it.is_subclass(a[0], c) for c in cs)
  raise Unsupported('issubclass')


@B('callable')
def _callable(it, a, k):
  v = a[0]
  r = it.spec.callable_(it, v)
  if r is not UNDEF:
    return _wrapb(r)
  if isinstance(v, (FuncVal, Bound, Builtin, ClassVal, type, PartialVal)):
    return True
  if isinstance(v, Obj):
    return it.class_attr(v.cls, '__call__')[0] is not UNDEF
  if isinstance(v, _CONCRETE + (tuple, ListObj, DictObj, SetObj, SInt, SStr, SBool)):
    return False
  raise Unsupported(f'callable of {v!r}')


@B('getattr')
def _getattr(it, a, k):
  o, n = a[0], a[1]
  if not isinstance(n, str):
    r = it.spec.dyn_getattr(it, o, n, a[2] if len(a) > 2 else UNDEF)
    if r is not UNDEF:
      return r
    raise Unsupported('getattr with a symbolic name')
  if len(a) > 2:
    try:
      return it.getattr(o, n, a[2])
    except PyRaise as e:
      if it.exc_matches(e.exc, AttributeError):
        return a[2]
      raise
  return it.getattr(o, n)


@B('hasattr')
def _hasattr(it, a, k):
  r = it.spec.hasattr_(it, a[0], a[1])
  if r is not UNDEF:
    return _wrapb(r)
  if not isinstance(a[1], str):
    raise Unsupported('hasattr')
  try:
    it.getattr(a[0], a[1])
    return True
  except PyRaise as e:
    if it.exc_matches(e.exc, AttributeError):
      return False
    raise


@B('setattr')
def _setattr(it, a, k):
  if not isinstance(a[1], str):
    r = it.spec.dyn_setattr(it, a[0], a[1], a[2])
    if r is not UNDEF:
      return None
    raise Unsupported('setattr with a symbolic name')
  it.setattr(a[0], a[1], a[2])


@B('id')
def _id(it, a, k):
  t = it.tv(a[0])
  if z3.is_app(t) and t.decl().name() == 'ref':
    return SInt(z3.simplify(t.arg(0)))
  if it.entails(Val.is_ref(t)) == 'unsat':
    return SInt(Val.id(t))
  return SInt(z3.If(Val.is_ref(t), Val.id(t), _IdOf(t)))


_IdOf = z3.Function('py_id', Val, z3.IntSort())
_HashOf = z3.Function('py_hash', Val, z3.IntSort())


@B('hash')
def _hash(it, a, k):
  v = a[0]
  if isinstance(v, (ListObj, DictObj, SetObj)):
    it.throw(TypeError, 'unhashable')
  if isinstance(v, Obj):
    m, _ = it.class_attr(v.cls, '__hash__')
    if m is not UNDEF:
      return it.call(Bound(m, v), [], {})
  return SInt(_HashOf(it.keyterm(v)))


@B('repr')
def _repr(it, a, k):
  if isinstance(a[0], (int, str, float, bool, type(None))):
    return repr(a[0])
  return SStr(it.fresh('repr', z3.StringSort()))


@B('print')
def _print(it, a, k):
  return None


@B('iter')
def _iter(it, a, k):
  v = a[0]
  if isinstance(v, (IterObj,)):
    return v
  if isinstance(v, (DictObj, KeysView)):
    d = v.d if isinstance(v, KeysView) else v
    if d.items is None:
      o = IterObj(d, 0, it.tick(), it.newref())
      o.dict = d
      it.objs[o.ref] = o
      return o
    v = tuple(x for x, _ in d.items)
  if isinstance(v, EnumPairs):
    o = IterObj(v, 0, it.tick(), it.newref())
    it.objs[o.ref] = o
    return o
  if isinstance(v, (tuple, STup, ListObj, str)):
    o = IterObj(v, 0, it.tick(), it.newref())
    it.objs[o.ref] = o
    return o
  if isinstance(v, Obj):
    m, _ = it.class_attr(v.cls, '__iter__')
    if m is not UNDEF:
      return it.call(Bound(m, v), [], {})
  t = as_tuple(it, v)
  o = IterObj(t, 0, it.tick(), it.newref())
  it.objs[o.ref] = o
  return o


@B('next')
def _next(it, a, k):
  o = a[0]
  if isinstance(o, GenExp):
    # next(<genexp>): first element
    from pyvc import pure
    if pure.enabled(it) and len(o.node.generators) == 1:
      f = it.comp_frame(o.frame)
      v, src = pure.comp_source(it, o.node, f)
      if isinstance(src, tuple):
        return pure.first_match(it, o.node, f, src, a[1] if len(a) > 1 else None, len(a) > 1)
    t = as_tuple(it, o)
    o = IterObj(t, 0, it.tick(), it.newref())
    it.objs[o.ref] = o
  if not isinstance(o, IterObj):
    raise Unsupported('next')
  pos = o.fields['pos']
  if getattr(o, 'dict', None) is not None:
    d = o.dict
    if pos != 0:
      raise Unsupported('next on a dict iterator past the first key')
    it.dict_facts(d)
    if not it.branch(d.card > 0):
      if len(a) > 1:
        return a[1]
      it.throw(StopIteration)
    o.fields['pos'] = 1
    it.wr(o, 'pos')
    return it.fv(_extreme_key(it, d, False))
  if isinstance(o.src, EnumPairs):
    n, at = o.src.length, o.src.at
  elif isinstance(o.src, (tuple, str)) or (isinstance(o.src, ListObj) and o.src.items is not None):
    items = o.src.items if isinstance(o.src, ListObj) else o.src
    if isinstance(pos, int):
      if pos >= len(items):
        if len(a) > 1:
          return a[1]
        it.throw(StopIteration)
      o.fields['pos'] = pos + 1
      it.wr(o, 'pos')
      return items[pos]
    s = it.seq_of(items)
    n, at = Length(s), lambda i: it.fv(s[i])
  else:
    s = it.seq_term(o.src)
    n, at = Length(s), lambda i: it.fv(s[i])
  p = it.int_t(pos)
  if not it.branch(p < n):
    if len(a) > 1:
      return a[1]
    it.throw(StopIteration)
  o.fields['pos'] = SInt(z3.simplify(p + 1))
  it.wr(o, 'pos')
  return at(p)


def _quant(it, v, want):
  """any/all: want=True for any, False for all."""
  if isinstance(v, GenExp) and len(v.node.generators) == 1:
    g = v.node.generators[0]
    f = v.frame_copy()
    src = iter_source(it, it.ev(g.iter, f.closure))
    if isinstance(src, tuple):
      length, at, _ = src
      i = it.fresh('q', z3.IntSort())
      # Evaluate the predicate once at an arbitrary index; it must be pure and
      # must not fork.
      n0 = len(it.trail)
      log = []
      it.writelogs.append(log)
      npc = len(it.pc)
      it.assume(z3.And(0 <= i, i < length))
      try:
        it.assign(g.target, at(i), f)
        conds = []
        for c in g.ifs:
          conds.append(it.truth(it.ev(c, f)))
        p = it.truth(it.ev(v.node.elt, f))
      finally:
        it.writelogs.remove(log)
      if len(it.trail) != n0:
        raise Unsupported('any/all predicate forks over a symbolic sequence')
      if any(not isinstance(o, Frame) for o, _ in log):
        raise Unsupported('any/all predicate writes')
      extra = it.pc[npc + 1:]
      cond = it.conj(conds)
      cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
      p = z3.BoolVal(p) if isinstance(p, bool) else p
      j = z3.Int('q')
      sub = lambda x: z3.substitute(x, (i, j))
      rng = z3.And(0 <= j, j < length)
      if want:
        return z3.Exists([j], z3.And(rng, sub(cond), sub(p)))
      return FA([j], z3.Implies(z3.And(rng, sub(cond)), sub(p)))
  if isinstance(v, GenExp):
    res = {'r': not want}
    class _Stop(Exception):
      pass
    def push(f):
      if it.test(it.ev(v.node.elt, f)) == want:
        raise _Stop()
    try:
      it.run_comp(v.node.generators, 0, v.frame_copy(), push, v.node, None)
    except _Stop:
      return want
    return not want
  src = iter_source(it, v)
  if isinstance(src, list):
    fs = [it.truth(x) for x in src]
    return it.disj(fs) if want else it.conj(fs)
  raise Unsupported('any/all')


@B('any')
def _any(it, a, k):
  return _wrapb(_quant(it, a[0], True))


@B('all')
def _all(it, a, k):
  return _wrapb(_quant(it, a[0], False))


@B('range')
def _range(it, a, k):
  a = [it.unopaque(x) for x in a]
  if all(isinstance(x, int) for x in a):
    return range(*a)
  if len(a) == 1:
    return SymRange(z3.IntVal(0), it.int_t(a[0]))
  if len(a) == 2:
    return SymRange(it.int_t(a[0]), it.int_t(a[1]))
  raise Unsupported('range step')


@B('zip')
def _zip(it, a, k):
  strict = k.get('strict', False)
  star = [x for x in a if isinstance(x, _StarSeq)]
  plain = [x for x in a if not isinstance(x, _StarSeq)]
  srcs = [iter_source(it, x) for x in plain]
  if star:
    return it.spec.zip_star(it, srcs, star, strict)
  if all(isinstance(s, list) for s in srcs):
    if strict and len({len(s) for s in srcs}) > 1:
      it.throw(ValueError, 'zip')
    return tuple(zip(*srcs))
  cols = []
  for s in srcs:
    if isinstance(s, list):
      sq = it.seq_of(s)
      cols.append((Length(sq), lambda i, sq=sq: it.fv(sq[i])))
    elif isinstance(s, tuple):
      cols.append((s[0], s[1]))
    else:
      raise Unsupported('zip of a generator')
  n = cols[0][0]
  # zip(strict=True) raises when the shorter one is exhausted
  uneven = strict and not it.branch(it.conj([c[0] == n for c in cols[1:]]))
  if uneven or not strict:
    for c in cols[1:]:
      n = z3.If(c[0] < n, c[0], n)
  e = EnumPairs(n, lambda i: tuple(c[1](i) for c in cols))
  if uneven:
    e.on_end = lambda: it.throw(ValueError, 'zip')
  return e


@B('enumerate')
def _enumerate(it, a, k):
  start = k.get('start', a[1] if len(a) > 1 else 0)
  src = iter_source(it, a[0])
  if isinstance(src, list):
    if isinstance(start, int):
      return tuple((i + start, x) for i, x in enumerate(src))
    return tuple((SInt(it.int_t(start) + i), x) for i, x in enumerate(src))
  if isinstance(src, tuple):
    n, at, _ = src
    st = it.int_t(start)
    e = EnumPairs(n, lambda i: (SInt(z3.simplify(i + st)), at(i)))
    return e
  raise Unsupported('enumerate of a generator')


@B('reversed')
def _reversed(it, a, k):
  t = as_tuple(it, a[0])
  if isinstance(t, tuple):
    return tuple(reversed(t))
  s = t.t
  n = Length(s)
  return EnumPairs(n, lambda i: it.fv(s[n - 1 - i]))


@B('map')
def _map(it, a, k):
  src = iter_source(it, a[1])
  if isinstance(src, list) and len(a) == 2:
    return tuple(it.call(a[0], [x], {}) for x in src)
  raise Unsupported('map')


@B('filter')
def _filter(it, a, k):
  raise Unsupported('filter')


@B('sorted')
def _sorted(it, a, k):
  r = it.spec.sorted_(it, a[0], k)
  if r is not UNDEF:
    return r
  from pyvc import pure
  if pure.enabled(it):
    src = iter_source(it, a[0])
    if isinstance(src, GenExp):
      src = iter_source(it, as_tuple(it, src))
    if isinstance(src, tuple):
      rv = k.get('reverse', False)
      if not isinstance(rv, bool):
        raise Unsupported('sorted(reverse=symbolic)')
      return it.new_list_sym(pure.sort_source(it, src, k.get('key'), rv))
  t = as_tuple(it, a[0])
  if isinstance(t, tuple) and all(isinstance(x, (int, str)) for x in t) and not k.get('key'):
    return it.new_list(sorted(t, reverse=bool(k.get('reverse', False))))
  if isinstance(t, tuple) and len(t) <= 1:
    return it.new_list(t)
  raise Unsupported('sorted of symbolic values')


def _z(c):
  return z3.BoolVal(c) if isinstance(c, bool) else c


def _minmax(it, a, k, is_max):
  r = it.spec.minmax(it, a, k, is_max)
  if r is not UNDEF:
    return r
  if 'key' in k:
    t = as_tuple(it, a[0]) if len(a) == 1 else tuple(a)
    if isinstance(t, STup) or not t or set(k) != {'key'}:
      raise Unsupported('min/max key')
    best, bk = t[0], it.call(k['key'], [t[0]], {})
    for x in t[1:]:
      xk = it.call(k['key'], [x], {})
      if it.branch(_z(order(it, ast.Gt() if is_max else ast.Lt(), xk, bk))):
        best, bk = x, xk
    return best
  if len(a) == 1:
    t = as_tuple(it, a[0])
    if isinstance(t, STup):
      if not it.branch(Length(t.t) > 0):
        if 'default' in k:
          return k['default']
        it.throw(ValueError)
      raise Unsupported('min/max of a symbolic sequence')
    if not t:
      if 'default' in k:
        return k['default']
      it.throw(ValueError)
    a = list(t)
  best = a[0]
  for x in a[1:]:
    c = order(it, ast.Gt() if is_max else ast.Lt(), x, best)
    if isinstance(c, bool):
      best = x if c else best
    elif isinstance(x, (int, SInt)) and isinstance(best, (int, SInt)):
      best = SInt(z3.If(c, it.int_t(x), it.int_t(best)))
    else:
      best = x if it.branch(c) else best
  return best


@B('min')
def _min(it, a, k):
  return _minmax(it, a, k, False)


@B('max')
def _max(it, a, k):
  return _minmax(it, a, k, True)


@B('sum')
def _sum(it, a, k):
  src = iter_source(it, a[0])
  if isinstance(src, GenExp):
    src = as_tuple(it, src)
    src = list(src) if isinstance(src, tuple) else None
  if not isinstance(src, list):
    r = it.spec.sum_(it, a[0])
    if r is not UNDEF:
      return r
    raise Unsupported('sum of a symbolic sequence')
  acc = a[1] if len(a) > 1 else k.get('start', 0)
  for x in src:
    acc = it.binop(ast.Add(), acc, x)
  return acc


@B('abs')
def _abs(it, a, k):
  v = it.unopaque(a[0])
  if isinstance(v, (int, float)):
    return abs(v)
  if isinstance(v, SInt):
    return SInt(z3.If(v.t < 0, -v.t, v.t))
  raise Unsupported('abs')


@B('open')
def _open(it, a, k):
  raise Unsupported('open()')


def call_type(it, t, a, k):
  if t is object:
    o = it.new_obj(object)
    return o
  r = it.spec.call_type(it, t, a, k)
  if r is not UNDEF:
    return r
  if t is list:
    if not a:
      return it.new_list([])
    if isinstance(a[0], EnumPairs):
      return a[0]  # an immutable snapshot; list mutators on it are unsupported
    v = as_tuple(it, a[0])
    return it.new_list(v) if isinstance(v, tuple) else it.new_list_sym(v.t)
  if t is tuple and a and isinstance(a[0], EnumPairs):
    return a[0]
  if t is tuple:
    return as_tuple(it, a[0]) if a else ()
  if t in (set, frozenset):
    s = it.new_set()
    if a:
      v = a[0]
      if isinstance(v, (SetObj, DictObj, KeysView)):
        src = as_set(it, v)
        if src.items is not None:
          s.items = list(src.items)
        else:
          s.items, s.dom, s.card = None, src.dom, src.card
      else:
        set_update(it, s, v)
    return s
  if t is dict:
    if a and isinstance(a[0], DictObj):
      d = dict_copy(it, a[0])
    else:
      d = it.new_dict()
      if a:
        dict_update(it, d, a[0])
    for kk, vv in k.items():
      it.dict_set(d, kk, vv)
    return d
  if t is bool:
    if not a:
      return False
    return _wrapb(it.truth(a[0]))
  if t is int:
    if not a:
      return 0
    v = it.unopaque(a[0])
    if isinstance(v, (int, bool)):
      return int(v)
    if isinstance(v, (SInt,)):
      return v
    if isinstance(v, SBool):
      return SInt(it.int_t(v))
    if isinstance(v, str):
      try:
        return int(v)
      except ValueError:
        it.throw(ValueError)
    raise Unsupported('int()')
  if t is float:
    v = it.unopaque(a[0]) if a else 0.0
    if isinstance(v, (int, float)):
      return float(v)
    if isinstance(v, (SInt, SReal)):
      return SReal(it.real_t(v))
    raise Unsupported('float()')
  if t is str:
    v = a[0] if a else ''
    if isinstance(v, (str, SStr)):
      return v
    if isinstance(v, (int, float, bool, type(None))):
      return str(v)
    if isinstance(v, Obj):
      m, _ = it.class_attr(v.cls, '__str__')
      if m is not UNDEF:
        return it.call(Bound(m, v), [], {})
    return SStr(it.fresh('str', z3.StringSort()))
  if t is type and len(a) == 1:
    v = a[0]
    if isinstance(v, Obj):
      return v.cls
    py = {SInt: int, SBool: bool, SStr: str, SReal: float, STup: tuple,
          ListObj: list, DictObj: dict, SetObj: set}
    if isinstance(v, _CONCRETE) or isinstance(v, tuple):
      return type(v)
    if type(v) in py:
      return py[type(v)]
    if isinstance(v, SVal):
      return SVal(_TypeOf(v.t))
    raise Unsupported('type()')
  if t is slice:
    return slice(*a)
  if issubclass(t, BaseException):
    o = it.new_obj(t)
    o.fields['args'] = tuple(a)
    return o
  if t is property:
    return PropVal(a[0])
  if t.__name__ == 'super' and len(a) == 2:
    return SuperVal(a[0], a[1])
  raise Unsupported(f'{t.__name__}()')


_TypeOf = z3.Function('py_type', Val, Val)


def cm_methods(it, cm):
  return UNDEF


# ------------------------------------------------------- external library ---


def _partial(it, a, k):
  return PartialVal(a[0], a[1:], k)


def _identity2(it, a, k):
  return a[1]


def _path_join(it, a, k):
  if all(isinstance(x, str) for x in a):
    import posixpath
    return posixpath.join(*a)
  return it.spec.path_join(it, a)


def _defaultdict(it, a, k):
  if a and a[0] is set and len(a) == 1 and not k:
    o = SetDict(it.newref(), it.tick())
    it.objs[o.ref] = o
    return o
  if a and a[0] is list and len(a) == 1 and not k:
    d = it.new_dict()
    d.default_factory = a[0]
    return d
  raise Unsupported('defaultdict')


EXTERNAL = {
    'collections.defaultdict': Builtin('collections.defaultdict', _defaultdict),
    'functools.partial': Builtin('functools.partial', _partial),
    'typing.cast': Builtin('typing.cast', _identity2),
    'types.NoneType': type(None),
    'builtins.len': BUILTINS['len'],
    'os.path.join': Builtin('os.path.join', _path_join),
    'collections.OrderedDict': dict,
    'typing.TYPE_CHECKING': False,
}


def external(it, dotted):
  if dotted in EXTERNAL:
    return EXTERNAL[dotted]
  if dotted.startswith('builtins.'):
    r = lookup(it, dotted[9:])
    if r is not UNDEF:
      return r
  return ExtRef(dotted)
