"""Contracts for koladata.ext.view (P22, P23)."""

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm
from pyvc.interp import _StarSeq, _SymTail

MOD = 'koladata.ext.view.view'
B, I = z3.BoolSort(), z3.IntSort()

TRUSTED = {'P22': ['sorted orders the groups by their key tuples (contract), dict.setdefault / values keep first-insertion order',
                   'z3, cvc5 and the VC generator pyvc/'],
           'P23': ['map_structures (C++, clib.cc): f is called on the leaves of the aligned structures, in order, and the results form a '
                   'structure of the greatest depth; with include_missing=False leaves with a None part stay None',
                   'copy.deepcopy and optree.pytree.map (opaque)', 'z3, cvc5 and the VC generator pyvc/']}
ASSUMPTIONS = {'P22': ['items used as keys have lawful __eq__/__hash__', '!= is the negation of =='],
               'P23': ['structures are tuples of the stated depth, items are not Views themselves', '!= is the negation of ==',
                       'items, containers and user functions are opaque; [] may raise IndexError, KeyError, TypeError']}

EqV = z3.Function('user_eq', Val, Val, B)


def once(it, f):
  """Assumes a defining fact of a specification function, once per path."""
  seen = it.__dict__.setdefault('spec_facts', set())
  if f.get_id() not in seen:
    seen.add(f.get_id())
    it.__dict__.setdefault('spec_keep', []).append(f)
    it.assume(f)


def simp(i):
  return z3.simplify(i)


class ItemSpec(Spec):
  """The per-item functions, on tuples x and f of any length."""

  def __init__(self):
    super().__init__()
    self.X = z3.Const('xs', SeqVal)
    self.F = z3.Const('fs', SeqVal)
    n = 'sp_'
    self.Sel = z3.Function(n + 'selected', I, SeqVal)
    self.Inv = z3.Function(n + 'restored', I, SeqVal)
    self.Cnt = z3.Function(n + 'count', I, I)
    self.Fst = z3.Function(n + 'first', I, Val)
    self.Same = z3.Function(n + 'same', I, B)
    self.Bad = z3.Function(n + 'foreign', I, B)

  def opaque_eq(self, it, a, b):
    return EqV(it.tv(a), it.tv(b))

  def P(self, it):
    return it.tv(it.modname(it.prog.module('koladata.ext.view.mask_constants'), 'present'))

  def unfold(self, it, i):
    """Definitions of the specification functions at i and i+1."""
    X, F, P = self.X, self.F, self.P(it)
    e = z3.Empty(SeqVal)
    f, x = F[i], X[i]
    def d(fn, base, step):
      once(it, fn(z3.IntVal(0)) == base)
      once(it, z3.Implies(i >= 0, fn(simp(i + 1)) == step))
    d(self.Sel, e, z3.If(f == P, z3.Concat(self.Sel(i), z3.Unit(x)), self.Sel(i)))
    d(self.Cnt, z3.IntVal(0), z3.If(f == P, self.Cnt(i) + 1, self.Cnt(i)))
    d(self.Inv, e, z3.Concat(self.Inv(i), z3.Unit(z3.If(f == P, X[self.Cnt(i)], NONE))))
    d(self.Bad, z3.BoolVal(False), z3.Or(self.Bad(i), z3.And(f != P, f != NONE)))
    d(self.Fst, NONE, z3.If(self.Fst(i) == NONE, x, self.Fst(i)))
    d(self.Same, z3.BoolVal(True), z3.And(self.Same(i), z3.Or(
        x == NONE, self.Fst(i) == NONE, EqV(self.Fst(i), x))))

  def at_index(self, it, i):
    self.unfold(it, i)
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD:
      self.unfold(it, simp(i - 1))
    for n in (Length(self.X), Length(self.F)):
      it.assume(z3.Implies(z3.And(0 <= i, i < n), self.mono(i + 1, n)))

  def mono(self, j, m):
    """Lemma (proved by induction on m in the proof 'lemmas'), for 0 <= j <= m."""
    return z3.And(z3.Implies(self.Bad(j), self.Bad(m)), z3.Implies(self.Same(m), self.Same(j)),
                  self.Cnt(j) <= self.Cnt(m), z3.Implies(self.Fst(j) != NONE, self.Fst(m) == self.Fst(j)))

  def loop_invariants(self, it, L):
    if L.kind != 'for':
      return []
    self.at_index(it, L.i)
    out = [('no foreign filter value seen', z3.Not(self.Bad(L.i))),
           ('one value so far', self.Same(L.i)),
           ('count within bounds', z3.And(0 <= self.Cnt(L.i), self.Cnt(L.i) <= L.i))]
    cand = dict(L.frame.locals)
    if L.acc is not None:
      cand['<acc>'] = L.acc
    for k, v in enumerate(sorted((o for o in it.objs.values() if isinstance(o, IterObj)), key=lambda o: o.ref)):
      cand[f'<iterator {k}>'] = v
    for n, v in sorted(cand.items()):
      if isinstance(v, ListObj):
        s = it.seq_term(v)
        out.append((f'{n}: selected so far', s == self.Sel(L.i)))
        out.append((f'{n}: restored so far', s == self.Inv(L.i)))
      elif isinstance(v, IterObj):
        out.append((f'{n}: position', it.int_t(v.fields['pos']) == self.Cnt(L.i)))
        out.append((f'{n}: in range', self.Cnt(L.i) <= Length(self.X)))
      elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
        out.append((f'{n}: count', it.int_t(v) == self.Cnt(L.i)))
        out.append((f'{n}: in range', self.Cnt(L.i) <= Length(self.X)))
      elif v is None or isinstance(v, SVal):
        out.append((f'{n}: first present', it.tv(v) == self.Fst(L.i)))
    return out


def run(it, name, args):
  try:
    return it.call(it.modname(it.prog.module(MOD), name), args, {}), None
  except PyRaise as e:
    return None, e.exc


def h_lemmas(sp):
  def harness(it):
    j, m = z3.Ints('jj mm')
    it.assume(z3.And(0 <= j, j <= m))
    sp.unfold(it, m)
    sp.unfold(it, j)
    if it.option('base'):
      it.oblige('P22: lemma mono, base', sp.mono(j, j))
    else:
      it.assume(sp.mono(j, m))
      it.oblige('P22: lemma mono, step', sp.mono(j, m + 1))
    it.cover('lemma')
  return harness


def h_select(sp):
  def harness(it):
    X, F = sp.X, sp.F
    n = Length(F)
    r, exc = run(it, '_select_impl', [STup(X), STup(F)])
    ok = z3.And(Length(X) == n, z3.Not(sp.Bad(n)))
    it.cover('selected' if exc is None else 'rejected')
    if exc is not None:
      it.oblige('P22: select rejects by ValueError', it.exc_matches(exc, ValueError))
      it.oblige('P22: select rejects only a filter of another length or with foreign values', z3.Not(ok))
      return
    it.oblige('P22: select accepts only a filter of the same length', Length(X) == n)
    it.oblige('P22: select accepts only present and None in the filter', z3.Not(sp.Bad(n)))
    it.oblige('P22: select keeps exactly the items at present positions, in order',
              isinstance(r, (tuple, STup)) and it.seq_term(r) == sp.Sel(n))
  return harness


def h_inverse(sp):
  def harness(it):
    X, F = sp.X, sp.F
    n = Length(F)
    r, exc = run(it, '_inverse_select_impl', [STup(X), STup(F)])
    it.cover('restored' if exc is None else 'rejected')
    if exc is not None:
      it.oblige('P22: inverse_select rejects by ValueError', it.exc_matches(exc, ValueError))
      it.oblige('P22: inverse_select rejects only a wrong number of items or foreign values',
                z3.Not(z3.And(Length(X) == sp.Cnt(n), z3.Not(sp.Bad(n)))))
      return
    it.oblige('P22: inverse_select accepts only as many items as present values', Length(X) == sp.Cnt(n))
    it.oblige('P22: inverse_select accepts only present and None in the filter', z3.Not(sp.Bad(n)))
    it.oblige('P22: inverse_select puts the items at the present positions, in order',
              isinstance(r, (tuple, STup)) and it.seq_term(r) == sp.Inv(n))
  return harness


def h_collapse(sp):
  def harness(it):
    n = Length(sp.X)
    r, exc = run(it, '_collapse_impl', [STup(sp.X)])
    it.cover('collapsed')
    it.oblige('P22: collapse does not fail', exc is None)
    it.oblige('P22: collapse yields the common value of the present items, or None',
              it.tv(r) == z3.If(sp.Same(n), sp.Fst(n), NONE))
  return harness


# ------------------------------------------------------------- group_by --

KeyLess = z3.Function('key_less', Val, Val, B)


class GroupSpec(Spec):
  """_group_by_impl(sort, x, *args): any number of key columns of any length.

  Row(i) is the i-th row of the key columns, Key(i) the key of item i.
  """

  def __init__(self):
    super().__init__()
    self.X = z3.Const('xs', SeqVal)
    self.A = z3.Const('cols', SeqVal)
    self.Row = z3.Function('sp_row', I, SeqVal)
    self.Skip = z3.Function('sp_skip', I, B)
    self.Seen = z3.Function('sp_seen', Val, I, B)
    self.Grp = z3.Function('sp_group', Val, I, SeqVal)
    self.NK = z3.Function('sp_nkeys', I, I)
    self.Nth = z3.Function('sp_nthkey', I, Val)
    self.even = z3.Bool('columns_even')
    self.short = z3.Int('shortest')
    self.SK = None
    self.Res = z3.Function('sp_result', I, SeqVal)

  def Keys(self, i):
    return z3.Unit(self.X[i]) if self.nocols else self.Row(i)

  def unfold(self, it, i):
    k, j = z3.Const('kk', Val), z3.Int('jq')
    ks = self.Keys(i)
    key = Val.tup(ks)
    once(it, Length(self.Row(i)) == Length(self.A))
    once(it, self.Skip(i) == ((self.X[i] == NONE) if self.nocols else
                              z3.Exists([j], z3.And(0 <= j, j < Length(ks), ks[j] == NONE))))
    Z = z3.IntVal(0)
    once(it, FA([k], z3.And(z3.Not(self.Seen(k, Z)), self.Grp(k, Z) == z3.Empty(SeqVal)), patterns=[self.Seen(k, Z)]))
    once(it, self.NK(Z) == 0)
    here = z3.And(z3.Not(self.Skip(i)), key == k)
    once(it, FA([k], self.Seen(k, simp(i + 1)) == z3.Or(self.Seen(k, i), here), patterns=[self.Seen(k, simp(i + 1))]))
    once(it, FA([k], self.Grp(k, simp(i + 1)) == z3.If(here, z3.Concat(self.Grp(k, i), z3.Unit(self.X[i])), self.Grp(k, i)),
                 patterns=[self.Grp(k, simp(i + 1))]))
    new = z3.And(z3.Not(self.Skip(i)), z3.Not(self.Seen(key, i)))
    once(it, self.NK(simp(i + 1)) == z3.If(new, self.NK(i) + 1, self.NK(i)))
    once(it, z3.Implies(new, self.Nth(self.NK(i)) == key))

  def at_index(self, it, i):
    self.unfold(it, i)
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD:
      self.unfold(it, simp(i - 1))

  def result_at(self, it, i):
    """Res(i): the first i groups of the result."""
    n = Length(self.X)
    key = self.SK(i) if self.SK is not None else self.Nth(i)
    once(it, self.Res(z3.IntVal(0)) == z3.Empty(SeqVal))
    once(it, z3.Implies(i >= 0, self.Res(simp(i + 1)) == z3.Concat(self.Res(i), z3.Unit(Val.tup(self.Grp(key, n))))))

  def zip_star(self, it, srcs, star, strict):
    if len(srcs) != 1 or not isinstance(srcs[0], tuple) or len(star) != 1 or not star[0].seq.eq(self.A):
      raise Unsupported('zip(*symbolic)')
    n = srcs[0][0]
    e = EnumPairs(n, lambda i: (srcs[0][1](i), _SymTail(self.Row(i))))
    if it.branch(self.even):
      return e
    e.length = self.short
    if strict:
      e.on_end = lambda: it.throw(ValueError, 'zip')
    return e

  def loop_invariants(self, it, L):
    if L.kind != 'for':
      return []
    keys = getattr(L.seqval, 'keys', None)
    out = []
    n = Length(self.X)
    if keys is not None or self.SK is not None:
      i = simp(L.i)
      self.result_at(it, i)
      if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD:
        self.result_at(it, simp(i - 1))
      if isinstance(L.acc, ListObj):
        out.append(('groups so far', it.seq_term(L.acc) == self.Res(i)))
      return out
    i = simp(L.i)
    self.at_index(it, i)
    k = z3.Const('kk', Val)
    out.append(('no items of keys not seen', FA([k], z3.Or(self.Seen(k, i), self.Grp(k, i) == z3.Empty(SeqVal)),
                                                patterns=[self.Grp(k, i)])))
    out.append(('as many keys as at most items', z3.And(0 <= self.NK(i), self.NK(i) <= i)))
    for o in sorted((o for o in it.objs.values() if isinstance(o, DictObj) and (o.items is None or not o.items)),
                    key=lambda o: o.ref):
      if o.items is not None:
        it.dict_promote(o)
        o.owns_lists = True
        o.dom, o.val, o.ord = it.define('dom', o.dom), it.define('val', o.val), it.define('ord', o.ord)
      d = f'dict {o.ref}'
      out.append((f'{d}: keys seen', FA([k], o.dom[k] == self.Seen(k, i), patterns=[o.dom[k], self.Seen(k, i)])))
      out.append((f'{d}: groups so far', FA([k], z3.Implies(o.dom[k], o.val[k] == Val.lst(self.Grp(k, i))), patterns=[o.val[k]])))
      out.append((f'{d}: order', z3.And(o.nxt == self.NK(i), o.card == self.NK(i))))
      out.append((f'{d}: positions', FA([k], z3.Implies(o.dom[k], z3.And(
          0 <= o.ord[k], o.ord[k] < self.NK(i), self.Nth(o.ord[k]) == k)), patterns=[o.ord[k]])))
    return out

  def sorted_(self, it, v, k):
    keys = getattr(v, 'keys', None)
    if keys is None or k:
      raise Unsupported('sorted of something else than the items')
    at = self.SK = z3.Function('sorted_key', I, Val)
    ix = z3.Function('sorted_pos', Val, I)
    i, j, q = z3.Int('si'), z3.Int('sj'), z3.Const('sq', Val)
    n = keys.n
    it.assume(FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(v.snap.dom[at(i)], ix(at(i)) == i)), patterns=[at(i)]))
    it.assume(FA([q], z3.Implies(v.snap.dom[q], z3.And(0 <= ix(q), ix(q) < n, at(ix(q)) == q)), patterns=[ix(q)]))
    it.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), KeyLess(at(i), at(j))),
                 patterns=[z3.MultiPattern(at(i), at(j))]))
    pair = isinstance(v.at(z3.IntVal(0)), tuple)
    val = lambda i: bm._snap_read(it, v.snap, at(i))
    return EnumPairs(n, (lambda i: (it.fv(at(i)), val(i))) if pair else (lambda i: it.fv(at(i))))


def h_group(sp):
  def harness(it):
    n = Length(sp.X)
    sp.SK = None
    sort = it.option('sort')
    nocols = sp.nocols = it.option('no key columns')
    it.assume((Length(sp.A) == 0) if nocols else (Length(sp.A) > 0))
    if nocols:
      it.assume(sp.even)
    it.assume(z3.Implies(z3.Not(sp.even), z3.And(0 <= sp.short, sp.short <= n)))
    r, exc = run(it, '_group_by_impl', [sort, STup(sp.X)] + ([] if nocols else [_StarSeq(sp.A)]))
    it.cover('grouped' if exc is None else 'rejected')
    it.oblige('P22: group_by accepts exactly columns of the length of the data', (exc is None) == sp.even)
    if exc is not None:
      it.oblige('P22: group_by rejects by ValueError', it.exc_matches(exc, ValueError))
      return
    s = it.seq_term(r)
    what = ('P22: group_by makes one group per distinct key, in order of ' + ('the sorted keys' if sort else 'appearance')
            + ', holding exactly the items of the key in order')
    it.oblige(what, (sp.SK is not None) == sort and s == sp.Res(sp.NK(n)))
  return harness


# ------------------------------------------------------------ View shape --

Boxable = z3.Function('is_primitive', Val, B)
UserF = z3.Function('user_f', Val, Val)
UserF2 = z3.Function('user_f2', Val, Val, Val, Val)
TupOf = z3.Function('tuple_of', Val, SeqVal)
SliceOf = z3.Function('slice_of', Val, Val, Val, Val)
ItemOf = z3.Function('item_of', Val, Val, Val)
AttrOf = z3.Function('attr_of', Val, z3.StringSort(), Val)
HasAttr = z3.Function('has_attr', Val, z3.StringSort(), B)
Deep = z3.Function('deepcopy_of', Val, Val)
PyMap = z3.Function('pytree_map', Val, B, Val, Val)
Mapped = z3.Function('mapped', I, Val, Val)  # explode: depth, object -> object
Ord = {n: z3.Function('user_' + n, Val, Val, B) for n in ('lt', 'le', 'gt', 'ge')}
ORD = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}
SelF = z3.Function('select_of', Val, Val, Val)
InvF = z3.Function('inverse_select_of', Val, Val, Val)
ColF = z3.Function('collapse_of', Val, Val)
FlatF = z3.Function('flatten_of', Val, I, I, Val)
ExpF = z3.Function('expand_of', Val, I, Val, I, Val)


class Rec:
  """One use of map_structures: what was mapped, and what f did on a leaf."""


class Other(Exception):
  pass


class ViewSpec(Spec):
  """map_structures(f, depths, include_missing, args, kwnames): contract.

  The result is a structure of depth max(depths) holding f of the aligned leaves;
  with include_missing=False f sees no None.  f is run here on arbitrary leaves.
  """

  def __init__(self):
    super().__init__()
    self.recs = []
    self.expect = None
    self.tuples = False  # leaves are tuples
    B_ = lambda n, f: self.models.__setitem__(n, Builtin(n, f))
    B_('koladata.ext.view.clib_py_ext.map_structures', self.map_structures)
    B_('itertools.chain', lambda it, a, k: tuple(x for t in a for x in bm.as_tuple(it, t)))
    B_('copy.deepcopy', lambda it, a, k: SVal(Deep(it.tv(a[0]))))
    B_('optree.pytree.map', self.pytree_map)
    self.contracts[(MOD, '_select_impl')] = lambda it, fn, a, k: SVal(SelF(it.tv(a[0]), it.tv(a[1])))
    self.contracts[(MOD, '_inverse_select_impl')] = lambda it, fn, a, k: SVal(InvF(it.tv(a[0]), it.tv(a[1])))
    self.contracts[(MOD, '_collapse_impl')] = lambda it, fn, a, k: SVal(ColF(it.tv(a[0])))
    self.contracts[(MOD, '_group_by_impl')] = self.group

  def start(self, it):
    self.recs = []
    self.expect = None
    self.tuples = False
    self.effects = []
    self.chain = None
    m = it.prog.module(MOD)
    self.cls = it.modname(m, 'View')
    self.P = it.tv(it.modname(it.prog.module('koladata.ext.view.mask_constants'), 'present'))

  def view(self, it, name):
    o = it.new_obj(self.cls)
    d = z3.Int(f'depth_{name}')
    it.assume(d >= 0)
    o.fields.update(_obj=SVal(z3.Const(f'obj_{name}', Val)), _depth=SInt(d))
    return o

  def group(self, it, fn, a, k):
    f = z3.Function(f'group_of{len(a) - 1}', B, *[Val] * len(a))
    return SVal(f(_b(it.truth(a[0])), *[it.tv(x) for x in a[1:]]))

  def pytree_map(self, it, a, k):
    if len(a) != 2 or not set(k) <= {'none_is_leaf', 'namespace'} or not isinstance(a[0], Builtin):
      raise Unsupported('pytree.map')
    return SVal(PyMap(it.tv(a[1]), _b(it.truth(k.get('none_is_leaf', False))), it.tv(k.get('namespace', ''))))

  def map_structures(self, it, a, k):
    if k or len(a) not in (4, 5):
      raise Unsupported('map_structures with other arguments')
    r = Rec()
    seq = lambda v: bm.as_tuple(it, v)
    r.f, r.depths, r.im, r.args = a[0], seq(a[1]), _b(it.truth(a[2])), seq(a[3])
    r.kw = seq(a[4]) if len(a) == 5 else ()
    if isinstance(r.depths, STup) or isinstance(r.args, STup) or isinstance(r.kw, STup):
      raise Unsupported('map_structures over a symbolic number of structures')
    n = len(self.recs)
    if not (len(r.depths) == len(r.args) >= len(r.kw) and r.args):
      it.throw(TypeError)
    r.leaves = [z3.Const(f'leaf{n}_{i}', Val) for i in range(len(r.args))]
    for x in r.leaves:
      it.assume(z3.Or(r.im, x != NONE))
      if self.tuples:
        it.assume(Val.is_tup(x))
    self.recs.append(r)
    before, self.effects = self.effects, []
    npos = len(r.leaves) - len(r.kw)
    r.value, r.exc = None, None
    try:
      r.value = it.call(r.f, [SVal(x) for x in r.leaves[:npos]],
                        {k_: SVal(x) for k_, x in zip(r.kw, r.leaves[npos:])})
    except PyRaise as e:
      r.exc = e
    r.effects, self.effects = self.effects, before
    if self.expect is not None:
      self.expect(it, r, n)
    if r.exc is not None:
      raise r.exc
    if self.chain is not None:
      return SVal(Mapped(it.int_t(r.depths[0]), it.tv(r.args[0])))
    r.res = z3.Const(f'mapped{n}', Val)
    return SVal(r.res)

  # what f may do with a leaf

  def opaque_eq(self, it, a, b):
    for x in (a, b):
      if isinstance(x, (ClassVal, type)):
        return False  # opaque values are not Views
    return EqV(it.tv(a), it.tv(b))

  def opaque_order(self, it, op, a, b):
    return Ord[ORD[type(op).__name__]](it.tv(a), it.tv(b))

  def isinstance_(self, it, v, c):
    if isinstance(v, SVal) and getattr(c, 'members', None):
      if self.cls in c.members:
        raise Unsupported('isinstance of a union with View')
      return Boxable(v.t)
    if isinstance(v, SVal) and (c is self.cls or c is slice):
      return False
    return UNDEF

  def materialize(self, it, v):
    return STup(TupOf(v.t)) if isinstance(v, SVal) else UNDEF

  def opaque_getitem(self, it, v, k):
    if isinstance(k, slice):
      if k.step is not None:
        raise Unsupported('slice step')
      return SVal(SliceOf(v.t, it.tv(k.start), it.tv(k.stop)))
    for e in (IndexError, KeyError, TypeError):
      if it.choose(f'{e.__name__} from []'):
        it.throw(e)
    return SVal(ItemOf(v.t, it.tv(k)))

  def opaque_setitem(self, it, o, k, v):
    for e in (IndexError, KeyError):
      if it.choose(f'{e.__name__} from []='):
        it.throw(e)
    self.effects.append(('setitem', o.t, it.tv(k), it.tv(v)))

  def opaque_attr(self, it, v, name, default):
    if name == 'append':
      return Builtin('append', lambda it_, a, k: self.effects.append(('append', v.t, it_.tv(a[0]))))
    return UNDEF

  def dyn_getattr(self, it, o, n, default):
    if isinstance(o, SVal):
      if not it.branch(HasAttr(o.t, it.str_t(n))):
        if default is not UNDEF:
          return default
        it.throw(AttributeError)
      return SVal(AttrOf(o.t, it.str_t(n)))
    return UNDEF

  def dyn_setattr(self, it, o, n, v):
    if isinstance(o, SVal):
      self.effects.append(('setattr', o.t, it.str_t(n), it.tv(v)))
      return None
    return UNDEF

  def set_opaque_attr(self, it, o, n, v):
    if isinstance(o, SVal):
      self.effects.append(('setattr', o.t, n, it.tv(v)))
      return None
    return UNDEF

  # loops that replace a view step by step

  def obj_kind(self, it, v):
    return ('view',) if v.cls is self.cls else UNDEF

  def fresh_obj(self, it, kind, name):
    o = it.new_obj(self.cls)
    o.fields.update(_obj=SVal(it.fresh(name + '_obj', Val)), _depth=SInt(it.fresh(name + '_depth', I)))
    return o

  def loop_invariants(self, it, L):
    if self.chain is None or L.kind != 'for':
      return []
    d0, Ex = self.chain
    i = simp(L.i)
    def unfold(i):
      once(it, z3.Implies(i >= 0, Ex(simp(i + 1)) == Mapped(simp(d0 + i), Ex(i))))
    unfold(i)
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD:
      unfold(simp(i - 1))
    out = []
    for n, v in sorted(L.frame.locals.items()):
      if isinstance(v, Obj) and v.cls is self.cls and n != 'self':
        out.append((f'{n}: depth so far', it.int_t(v.fields['_depth']) == d0 + i))
        out.append((f'{n}: object so far', it.tv(v.fields['_obj']) == Ex(i)))
    return out


def _b(x):
  return z3.BoolVal(x) if isinstance(x, bool) else x


class Env:
  """One harness run: arguments, outcome, obligations."""

  def __init__(self, sp, it):
    sp.start(it)
    self.sp, self.it = sp, it
    self.v = sp.view(it, 'self')
    self.o, self.d = self.v.fields['_obj'].t, self.v.fields['_depth'].t

  def arg(self, name, kinds=('view', 'prim')):
    """A symbolic argument: (value, object, depth, kind)."""
    it = self.it
    for k in kinds[:-1]:
      if it.option(f'{name} is {k}'):
        break
    else:
      k = kinds[-1]
    if k == 'view':
      v = self.sp.view(it, name)
      return v, v.fields['_obj'].t, v.fields['_depth'].t, k
    if k == 'self':
      return self.v, self.o, self.d, k
    t = z3.Const(f'prim_{name}', Val)
    it.assume(Boxable(t) if k == 'prim' else z3.Not(Boxable(t)))
    it.assume(z3.Not(Val.is_tup(t)))
    it.assume(t != it.tv(it.modname(it.prog.module(MOD), 'NO_DEFAULT')))
    it.assume(t != it.tv(self.v))
    return SVal(t), t, z3.IntVal(0), k

  def call(self, name, *args, **kw):
    return self.do(lambda: self.it.call(self.it.getattr(self.v, name), list(args), kw))

  def fn(self, name, *args, **kw):
    return self.do(lambda: self.it.call(self.it.modname(self.it.prog.module(MOD), name), list(args), kw))

  def do(self, f):
    self.exc = self.r = None
    try:
      self.r = f()
    except PyRaise as e:
      self.exc = e.exc
    self.it.cover('returns' if self.exc is None else 'raises')
    self.recs = self.sp.recs
    return self.r

  def ob(self, what, f):
    self.it.oblige('P23: ' + what, f)

  def is_view(self, what, obj, depth):
    ok = isinstance(self.r, Obj) and self.r.cls is self.sp.cls
    self.ob(f'{what}: the result is a View', ok)
    if ok:
      self.ob(f'{what}: the depth of the result', self.it.int_t(self.r.fields['_depth']) == depth)
      self.ob(f'{what}: the object of the result', self.it.tv(self.r.fields['_obj']) == obj)

  def rejects(self, what, ok, cls=ValueError):
    """Returns True if the call was rejected (and checks that it had to be)."""
    it = self.it
    if self.exc is not None:
      self.ob(f'{what}: fails by {cls.__name__}', it.exc_matches(self.exc, cls))
      self.ob(f'{what}: fails only for arguments that do not fit', z3.Not(ok))
      return True
    self.ob(f'{what}: accepts only arguments that fit', ok)
    return False

  def maps(self, n):
    if len(self.recs) != n:
      raise Unsupported(f'{len(self.recs)} uses of map_structures instead of {n}')

  def mapped(self, what, k, args, im=None, kw=()):
    """The k-th use maps over the structures args = [(depth, object), ...]."""
    r = self.recs[k]
    it = self.it
    if len(r.args) != len(args):
      raise Unsupported('map_structures over another number of structures')
    self.ob(f'{what}: works on the given views', it.conj(
        [it.int_t(a) == d for a, (d, _) in zip(r.depths, args)] + [it.tv(a) == o for a, (_, o) in zip(r.args, args)]))
    if im is not None:
      self.ob(f'{what}: missing items are {"included" if im is True else "skipped" if im is False else "as asked"}',
              r.im == im)
    self.ob(f'{what}: keyword arguments keep their names', tuple(r.kw) == tuple(kw))
    return r

  def leaf(self, what, r, want):
    self.ob(f'{what}: the value of an item', r.exc is None and self.it.tv(r.value) == want)
    self.ob(f'{what}: items are not changed', not r.effects)

  def silent(self, what, r):
    self.ob(f'{what}: items are not changed', not r.effects)


def zmax(*xs):
  r = xs[0]
  for x in xs[1:]:
    r = z3.If(x > r, x, r)
  return r


def tupv(x):
  return Val.tup(TupOf(x))


EMPTY = Val.tup(z3.Empty(SeqVal))


def h_binary(sp):
  OPS = ['__and__', '__rand__', '__or__', '__ror__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__']

  def harness(it):
    e = Env(sp, it)
    for op in OPS[:-1]:
      if it.option(op):
        break
    else:
      op = OPS[-1]
    x, o, d, kind = e.arg('other', ('view', 'self', 'prim'))
    e.call(op, x)
    e.maps(1)
    mine, theirs = (e.d, e.o), (d, o)
    rev = op in ('__rand__', '__ror__')
    r = e.mapped(op, 0, [theirs, mine] if rev else [mine, theirs], op in ('__or__', '__ror__'))
    a, b = r.leaves
    P = sp.P
    if op in ('__and__', '__rand__'):
      e.silent(op, r)
      e.ob(f'{op}: rejects exactly masks other than present', (e.exc is None) == (b == P))
      if e.exc is not None:
        e.ob(f'{op}: rejects by ValueError', it.exc_matches(e.exc, ValueError))
        return
      e.leaf(op, r, a)
    elif op in ('__or__', '__ror__'):
      e.leaf(op, r, z3.If(a == NONE, b, a))
    else:
      c = {'__eq__': EqV(a, b), '__ne__': z3.Not(EqV(a, b))}
      c = c[op] if op in c else Ord[op.strip('_')](a, b)
      e.leaf(op, r, z3.If(c, P, NONE))
    if e.exc is None:
      e.is_view(op, r.res, zmax(e.d, d))
  return harness


def h_attrs(sp):
  def harness(it):
    e = Env(sp, it)
    name = z3.String('attr')
    n = SStr(name)
    how = [x for x in ('getattr', 'get_attr', 'default', 'set_attrs') if it.option(x)][:1] or ['setattr']
    how = how[0]
    under = z3.PrefixOf(z3.StringVal('_'), name)
    if how in ('getattr', 'get_attr'):
      e.call('__getattr__' if how == 'getattr' else 'get_attr', n)
      if how == 'getattr':
        if not e.recs:
          e.ob('getattr: only private names are refused without looking', under)
          e.ob('getattr: ... by AttributeError', e.exc is not None and it.exc_matches(e.exc, AttributeError))
          return
        e.ob('getattr: private names are refused', z3.Not(under))
      e.maps(1)
      r = e.mapped(how, 0, [(e.d, e.o)], False)
      x = r.leaves[0]
      e.silent(how, r)
      e.ob(f'{how}: fails exactly for items without the attribute', (e.exc is None) == HasAttr(x, name))
      if e.exc is not None:
        e.ob(f'{how}: ... by AttributeError', it.exc_matches(e.exc, AttributeError))
        return
      e.leaf(how, r, AttrOf(x, name))
      e.is_view(how, r.res, e.d)
    elif how == 'default':
      x, o, d, kind = e.arg('dflt', ('view', 'other'))
      e.call('get_attr', n, x)
      if e.rejects('get_attr(default)', d == 0):
        return
      e.maps(1)
      r = e.mapped(how, 0, [(e.d, e.o)], False)
      x = r.leaves[0]
      v = AttrOf(x, name)
      e.leaf('get_attr(default)', r, z3.If(z3.And(HasAttr(x, name), v != NONE), v, o))
      e.is_view('get_attr(default)', r.res, e.d)
    else:
      x, o, d, kind = e.arg('value')
      what = how
      def expect(it_, r, k):
        pass
      if how == 'set_attrs':
        nm = 'attr_a'
        e.do(lambda: it.call(it.getattr(e.v, 'set_attrs'), [], {nm: x}))
      else:
        nm = 'attr_a' if it.option('public') else '_attr_a'
        e.call('__setattr__', nm, x)
        if nm[0] == '_':
          e.ob('setattr: private names are refused', e.exc is not None and it.exc_matches(e.exc, AttributeError) and not e.recs)
          return
      if e.rejects(what, d <= e.d):
        return
      e.maps(1)
      r = e.mapped(what, 0, [(e.d, e.o), (d, o)], True)
      a, b = r.leaves
      want = [] if not r.effects else [('setattr', a, nm, b)]
      e.ob(f'{what}: sets the attribute of every present item to the value aligned with it', it.conj(
          [r.exc is None, len(r.effects) <= 1, (a == NONE) == (len(r.effects) == 0)]
          + [z3.And(*[(x_ == y_) if is_z3x(x_) and is_z3x(y_) else z3.BoolVal(str(x_) == str(y_)) for x_, y_ in zip(g, w)])
             for g, w in zip(r.effects, want)]))
  return harness


def h_two_attrs(sp):
  def harness(it):
    e = Env(sp, it)
    x, o1, d1, _ = e.arg('value1')
    y, o2, d2, _ = e.arg('value2')
    e.do(lambda: it.call(it.getattr(e.v, 'set_attrs'), [], {'first': x, 'second': y}))
    if e.rejects('set_attrs', z3.And(d1 <= e.d, d2 <= e.d)):
      return
    e.maps(2)
    for k, (n, o, d) in enumerate((('first', o1, d1), ('second', o2, d2))):
      r = e.mapped('set_attrs', k, [(e.d, e.o), (d, o)], True)
      a, b = r.leaves
      e.ob('set_attrs: each name gets its own value', z3.If(a == NONE, z3.BoolVal(not r.effects), z3.BoolVal(
          len(r.effects) == 1 and r.effects[0][2] == n and r.effects[0][1].eq(a) and r.effects[0][3].eq(b))))
  return harness


# ---- shape ----


def clamp(x, lo, hi):
  return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def h_shape(sp):
  def harness(it):
    e = Env(sp, it)
    n = z3.Int('ndim')
    op = [x for x in ('implode', 'get', 'get_depth', 'deep_clone', 'deep_map', 'bool', 'iter') if it.option(x)][:1] or ['explode']
    op = op[0]
    if op == 'implode':
      e.call(op, SInt(n)) if it.option('explicit') else (it.assume(n == 1), e.call(op))
      if e.rejects(op, n <= e.d):
        return
      e.maps(0)
      e.is_view(op, e.o, z3.If(n < 0, z3.IntVal(0), e.d - n))
    elif op == 'get':
      e.call(op)
      e.ob('get returns the object of the view', e.exc is None and it.tv(e.r) == e.o)
    elif op == 'get_depth':
      e.call(op)
      e.ob('get_depth returns the depth', e.exc is None and it.int_t(e.r) == e.d)
    elif op == 'deep_clone':
      e.call(op)
      e.maps(0)
      e.is_view(op, Deep(e.o), e.d)
    elif op == 'deep_map':
      im = z3.Bool('im')
      ns = z3.String('ns')
      e.call(op, Builtin('user_f', lambda it_, a, k: SVal(UserF(it_.tv(a[0])))), include_missing=SBool(im), namespace=SStr(ns))
      e.maps(0)
      e.is_view(op, PyMap(e.o, im, Val.str(ns)), e.d)
    elif op == 'bool':
      e.call('__bool__')
      if e.rejects('bool', z3.And(e.d == 0, z3.Or(e.o == sp.P, e.o == NONE))):
        return
      e.ob('bool: present is true, missing is false', _b(it.truth(e.r)) == (e.o == sp.P))
    elif op == 'iter':
      e.call('__iter__')
      e.ob('views are not iterable', e.exc is not None and it.exc_matches(e.exc, ValueError))
    else:
      Ex = z3.Function('exploded', I, Val)
      it.assume(Ex(z3.IntVal(0)) == e.o)
      sp.chain = (e.d, Ex)

      def expect(it_, r, k):
        e.ob('explode: the items become tuples, missing items empty', it_.conj([
            r.exc is None, len(r.leaves) == 1, r.im, not r.effects,
            it_.tv(r.value) == z3.If(r.leaves[0] == NONE, EMPTY, tupv(r.leaves[0]))]))
      sp.expect = expect
      if it.option('explicit'):
        e.call(op, SInt(n))
      else:
        it.assume(n == 1)
        once(it, Ex(z3.IntVal(1)) == Mapped(e.d, e.o))
        e.call(op)
      if e.rejects(op, n >= 0):
        return
      e.is_view(op, Ex(n), e.d + n)
  return harness


def flatten_bounds(d, f, t):
  f = clamp(z3.If(f < 0, f + d, f), z3.IntVal(0), d)
  t = clamp(z3.If(t < 0, t + d, t), f, d)
  return f, t


def h_flatten(sp):
  def harness(it):
    e = Env(sp, it)
    f, t = z3.Ints('from_dim to_dim')
    args = []
    if it.option('from_dim given'):
      args.append(SInt(f))
      if it.option('to_dim given'):
        args.append(SInt(t))
      else:
        it.assume(t == e.d)
    else:
      it.assume(z3.And(f == 0, t == e.d))
    e.call('flatten', *args)
    f, t = flatten_bounds(e.d, f, t)
    if e.exc is None and not e.recs:
      e.ob('flatten: only one dimension needs no flattening', f + 1 == t)
      e.is_view('flatten', e.o, e.d)
      return
    e.maps(3)
    e.ob('flatten: does not fail', e.exc is None)
    r = e.mapped('flatten', 0, [(f, e.o)], True)
    e.ob('flatten: a new list for every outer item', isinstance(r.value, ListObj) and it.seq_term(r.value) == z3.Empty(SeqVal))
    r1 = e.mapped('flatten', 1, [(f, r.res), (t, e.o)], True)
    e.ob('flatten: every inner item is appended, in order, to the list of its outer item', len(r1.effects) == 1 and r1.effects[0][0] == 'append'
         and z3.And(r1.effects[0][1] == r1.leaves[0], r1.effects[0][2] == r1.leaves[1]))
    r2 = e.mapped('flatten', 2, [(f, r.res)], True)
    e.ob('flatten: the lists become tuples', z3.Implies(r2.leaves[0] != NONE, it.tv(r2.value) == tupv(r2.leaves[0])))
    e.is_view('flatten', r2.res, e.d - (t - f) + 1)
  return harness


def h_expand(sp):
  def harness(it):
    e = Env(sp, it)
    x, o, d, kind = e.arg('other', ('view', 'self', 'prim', 'foreign'))
    n = z3.Int('ndim')
    if it.option('ndim given'):
      e.call('expand_to', x, SInt(n))
    else:
      it.assume(n == 0)
      e.call('expand_to', x)
    if e.rejects('expand_to', z3.And(n >= 0, n <= e.d, e.d - n <= d, kind != 'foreign')):
      return
    if not e.recs:
      e.ob('expand_to: only the view itself needs no expansion', z3.And(n == 0, kind == 'self'))
      e.is_view('expand_to', e.o, e.d)
      return
    e.maps(1)
    r = e.mapped('expand_to', 0, [(e.d - n, e.o), (d, o)], True)
    e.leaf('expand_to', r, r.leaves[0])
    e.is_view('expand_to', r.res, d + n)
  return harness


def h_items(*ops):
  return lambda sp: h_items_(sp, ops)


def h_items_(sp, ops):
  def harness(it):
    e = Env(sp, it)
    op = ([x for x in ops[:-1] if it.option(x)][:1] or [ops[-1]])[0]
    if op == 'slice':
      def part(n):
        if it.option(f'no {n}'):
          return None, NONE, z3.BoolVal(True)
        x, o, d, k = e.arg(n, ('view', 'prim', 'foreign'))
        return x, o, z3.And(d == 0, k != 'foreign')
      none = (None, NONE, z3.BoolVal(True))
      if it.option('with a step'):
        (a, ao, aok), (b, bo, bok), (c, co, cok) = none, none, part('step')
      else:
        (a, ao, aok), (b, bo, bok), (c, co, cok) = part('start'), part('stop'), none
      e.call('__getitem__' if it.option('operator') else 'get_item', slice(a, b, c))
      if e.rejects(op, z3.And(aok, bok, cok, co == NONE)):
        return
      e.maps(1)
      r = e.mapped(op, 0, [(e.d, e.o)], True)
      x = r.leaves[0]
      e.leaf(op, r, z3.If(x == NONE, EMPTY, tupv(SliceOf(x, ao, bo))))
      e.is_view(op, r.res, e.d + 1)
    elif op in ('key', 'take'):
      x, o, d, k = e.arg('key')
      if op == 'key':
        e.call('__getitem__' if it.option('operator') else 'get_item', x)
      else:
        e.call('take', x)
        if not e.recs:
          e.rejects('take', e.d > 0)
          return
      e.maps(1)
      r = e.mapped(op, 0, [(e.d if op == 'key' else e.d - 1, e.o), (d, o)], False)
      if e.exc is not None:
        e.ob(f'{op}: a key or index that is out of range is not an error', z3.Not(_b(it.exc_matches(e.exc, (IndexError, KeyError)))))
        return
      e.silent(op, r)
      chosen = [q for q, v in it_choices(it) if v and q.endswith('from []')]
      e.leaf(op, r, NONE if chosen else ItemOf(r.leaves[0], r.leaves[1]))
      e.is_view(op, r.res, zmax(e.d if op == 'key' else e.d - 1, d))
    elif op == 'set slice':
      x, o, d, k = e.arg('value')
      e.call('set_item', slice(None, None, None), x)
      e.ob('set_item: slices are rejected', e.exc is not None and it.exc_matches(e.exc, ValueError) and not e.recs)
    elif op == 'set_item':
      ks, vs = ('view', 'prim'), ('view', 'prim')
      x, o, d, k = e.arg('key')
      y, p, q, k2 = e.arg('value')
      e.call('__setitem__' if it.option('operator') else op, x, y)
      fits = z3.Or(q <= e.d, q <= d)
      if not e.recs:
        e.rejects(op, fits)
        return
      e.ob('set_item: accepts only values that fit', fits)
      e.maps(1)
      r = e.mapped(op, 0, [(e.d, e.o), (d, o), (q, p)], True)
      a, b, c = r.leaves
      chosen = [n for n, v in it_choices(it) if v and n.endswith('from []=')]
      noop = z3.Or(a == NONE, b == NONE)
      if chosen:
        e.ob('set_item: an index that is out of range is ignored', z3.Or(noop, r.exc is None, chosen[0][0] == 'K'))
        e.silent(op, r)
        return
      e.ob('set_item: sets the item of every present container and key', z3.If(noop, z3.BoolVal(not r.effects), z3.BoolVal(
          len(r.effects) == 1 and all(g.eq(w) for g, w in zip(r.effects[0][1:], (a, b, c))))))
      e.ob('set_item: does not fail', r.exc is None)
    else:
      x, o, d, k = e.arg('value')
      e.call(op, x)
      e.maps(1)
      r = e.mapped(op, 0, [(e.d, e.o), (d, o)], True)
      a, b = r.leaves
      e.ob('append: appends to every present container', z3.If(a == NONE, z3.BoolVal(not r.effects), z3.BoolVal(
          len(r.effects) == 1 and r.effects[0][0] == 'append' and r.effects[0][1].eq(a) and r.effects[0][2].eq(b))))
      e.ob('append: does not fail', e.exc is None)
  return harness


# ---- select, group_by, collapse, map, boxing ----


def h_select_view(sp):
  def harness(it):
    e = Env(sp, it)
    x, o, d, k = e.arg('filter', ('view', 'self', 'prim', 'foreign'))
    b = z3.Bool('expand_filter')
    if it.option('expand_filter given'):
      e.call('select', x, SBool(b)) if it.option('positional') else e.call('select', x, expand_filter=SBool(b))
    else:
      it.assume(b)
      e.call('select', x)
    at = z3.If(b, e.d, d)
    P = sp.P
    if not e.recs:
      e.rejects('select', z3.And(k != 'foreign', d <= e.d, at >= 1))
      return
    e.ob('select: accepts only filters that fit', z3.And(k != 'foreign', d <= e.d, at >= 1))
    e.maps(1)
    exact = it.branch(d == at)
    r = e.mapped('select', 0, [(at - 1, e.o), (d - 1 if exact else d, o)])
    a, f = r.leaves
    e.silent('select', r)
    if exact:
      e.ob('select: filters the items of the last dimension', z3.Implies(
          z3.And(a != NONE, f != NONE), r.exc is None and it.tv(r.value) == SelF(a, f)))
    else:
      e.ob('select: missing filter values are looked at', r.im)
      e.ob('select: rejects exactly masks other than present or missing', (e.exc is None) == z3.Or(f == P, f == NONE))
      if e.exc is not None:
        e.ob('select: ... by ValueError', it.exc_matches(e.exc, ValueError))
        return
      e.leaf('select', r, z3.If(f == P, a, EMPTY))
    if e.exc is None:
      e.is_view('select', r.res, e.d)
  return harness


def h_inverse_view(sp):
  def harness(it):
    e = Env(sp, it)
    x, o, d, k = e.arg('filter', ('view', 'self', 'prim', 'foreign'))
    e.call('inverse_select', x)
    if e.rejects('inverse_select', z3.And(k != 'foreign', d == e.d, e.d >= 1)):
      return
    e.maps(1)
    r = e.mapped('inverse_select', 0, [(e.d - 1, e.o), (d - 1, o)])
    a, f = r.leaves
    e.ob('inverse_select: restores the items of the last dimension', z3.Implies(
        z3.And(a != NONE, f != NONE), r.exc is None and it.tv(r.value) == InvF(a, f)))
    e.silent('inverse_select', r)
    e.is_view('inverse_select', r.res, e.d)
  return harness


def h_group_view(sp):
  def harness(it):
    e = Env(sp, it)
    args = []
    n = 2 if it.option('two keys') else 1 if it.option('one key') else 0
    for i in range(n):
      args.append(e.arg(f'key{i}', ('view', 'self', 'prim', 'foreign') if i == 0 else ('view', 'prim')))
    b = z3.Bool('sort')
    kw = {}
    if it.option('sort given'):
      kw['sort'] = SBool(b)
    else:
      it.assume(z3.Not(b))
    e.call('group_by', *[a[0] for a in args], **kw)
    if e.rejects('group_by', z3.And(e.d >= 1, *[z3.And(a[3] != 'foreign', a[2] == e.d) for a in args])):
      return
    e.maps(1)
    r = e.mapped('group_by', 0, [(e.d - 1, e.o)] + [(a[2] - 1, a[1]) for a in args])
    f = z3.Function(f'group_of{n + 1}', B, *[Val] * (n + 2))
    e.ob('group_by: groups the items of the last dimension', z3.Implies(
        z3.And(*[x != NONE for x in r.leaves]), r.exc is None and it.tv(r.value) == f(b, *r.leaves)))
    e.silent('group_by', r)
    e.is_view('group_by', r.res, e.d + 1)
  return harness


def h_collapse_view(sp):
  def harness(it):
    e = Env(sp, it)
    n = z3.Int('ndim')

    def flatten(it_, fn, a, k):
      b = it_.bind(fn, a, k)
      v, f, t = b['self'], it_.int_t(b['from_dim']), b['to_dim']
      if v is not e.v or t is not None:
        raise Unsupported('another use of flatten')
      it_.oblige('P23: collapse: flattens dimensions that exist', z3.And(f >= 0, f <= e.d))
      o = it_.new_obj(sp.cls)
      o.fields.update(_obj=SVal(FlatF(e.o, e.d, f)), _depth=SInt(f + 1))
      return o
    sp.contracts[(MOD, 'View.flatten')] = flatten
    if it.option('ndim given'):
      e.call('collapse', SInt(n))
    else:
      it.assume(n == 1)
      e.call('collapse')
    if e.rejects('collapse', z3.And(n >= 0, n <= e.d)):
      return
    e.maps(1)
    r = e.mapped('collapse', 0, [(e.d - n, FlatF(e.o, e.d, e.d - n))])
    e.ob('collapse: collapses the items of the given dimensions', z3.Implies(
        r.leaves[0] != NONE, r.exc is None and it.tv(r.value) == ColF(r.leaves[0])))
    e.silent('collapse', r)
    e.is_view('collapse', r.res, e.d - n)
  return harness


def h_map(which):
  """View.map ('method'), map_ with ndim=0 ('items') and ndim != 0 ('dims')."""
  def make(sp):
    def harness(it):
      e = Env(sp, it)
      seen = []

      def user(it_, a, k):
        seen.append((list(a), dict(k)))
        ts = [it_.tv(x) for x in a] + [it_.tv(x) for _, x in sorted(k.items())]
        return SVal(z3.Function(f'user_fn{len(ts)}', *[Val] * (len(ts) + 1))(*ts))
      f = Builtin('user_f', user)
      n = z3.Int('ndim')
      im = None
      kw = {}
      if it.option('include_missing given'):
        im = it.option('include_missing')
        kw['include_missing'] = im
      if which == 'items':
        it.assume(n == 0)
      else:
        kw['ndim'] = SInt(n)
        if which == 'dims':
          it.assume(n != 0)
      zero = n == 0
      want_im = z3.Not(zero) if im is None else z3.BoolVal(im)
      if which == 'method':
        args = [(e.v, e.o, e.d, 'self')]
        e.call('map', f, **kw)
        names = ()
      else:
        args = [e.arg('a', ('view', 'prim', 'foreign'))]
        if it.option('two'):
          args.append(e.arg('b', ('view', 'prim')))
        names = ()
        if it.option('keyword'):
          args.append(e.arg('c', ('view', 'prim', 'foreign')))
          names = ('key_c',)
        pos = args[:len(args) - len(names)]
        if which == 'dims':
          def expand(it_, fn, a, k):
            b = it_.bind(fn, a, k)
            v, w = b['self'], b['other']
            if b['ndim'] != 0 or not isinstance(w, Obj):
              raise Unsupported('another use of expand_to')
            vd, wd = it_.int_t(v.fields['_depth']), it_.int_t(w.fields['_depth'])
            it_.oblige('P23: map: expands only to deeper views', vd <= wd)
            o = it_.new_obj(sp.cls)
            o.fields.update(_obj=SVal(z3.If(vd == wd, it_.tv(v.fields['_obj']), ExpF(
                it_.tv(v.fields['_obj']), vd, it_.tv(w.fields['_obj']), wd))), _depth=SInt(wd))
            return o
          sp.contracts[(MOD, 'View.expand_to')] = expand
        e.fn('map_', f, *[a[0] for a in pos], **kw, **{k: a[0] for k, a in zip(names, args[len(pos):])})
      top = zmax(*[a[2] for a in args])
      ok = z3.And(*[z3.BoolVal(a[3] != 'foreign') for a in args],
                  z3.Or(zero, z3.And(want_im, n > 0, n <= top)))
      if e.rejects('map', ok):
        return
      e.maps(1)
      same = (lambda a: (a[2], a[1])) if which == 'items' else (lambda a: (top - n, a[1]))
      r = e.recs[0]
      if which == 'dims' and len(args) > 1:
        it.oblige('P23: map: arguments are aligned first', it.conj([len(r.args) == len(args)] + [
            z3.Or(it.tv(x) == a[1], z3.And(a[2] < top, z3.Or(*[it.tv(x) == ExpF(a[1], a[2], w[1], w[2]) for w in args])))
            for x, a in zip(r.args, args)] + [z3.Or(a[2] < top, it.tv(x) == a[1]) for x, a in zip(r.args, args)]
            + [it.int_t(x) == top - n for x in r.depths]))
        e.ob('map: missing items as asked', r.im == want_im)
        e.ob('map: keyword arguments keep their names', tuple(r.kw) == tuple(names))
      else:
        r = e.mapped('map', 0, [same(a) for a in args], want_im, names)
      e.ob('map: the function is called once with the items of the arguments', it.conj(
          [len(seen) == 1, r.exc is None, not r.effects] + ([it.tv(r.value) == z3.Function(
              f'user_fn{len(args)}', *[Val] * (len(args) + 1))(*r.leaves)] if len(r.leaves) == len(args) else [False])))
      e.is_view('map', r.res, top - n)
    return harness
  return make


def h_box(sp):
  def harness(it):
    e = Env(sp, it)
    op = [x for x in ('box', 'box_and_unbox_scalar', 'align', 'view', 'nested', 'alone') if it.option(x)][:1] or ['align one']
    op = op[0]
    if op in ('box', 'box_and_unbox_scalar', 'align one'):
      x, o, d, k = e.arg('x', ('view', 'prim', 'foreign'))
      e.fn('align' if op == 'align one' else op, x)
      ok = z3.BoolVal(k != 'foreign')
      if op == 'box_and_unbox_scalar':
        ok = z3.And(ok, d == 0)
      if e.rejects(op, ok):
        return
      if op == 'box_and_unbox_scalar':
        e.ob(f'{op}: the value itself', it.tv(e.r) == o)
        return
      if op == 'align one':
        e.ob('align: one view per argument', isinstance(e.r, tuple) and len(e.r) == 1)
        e.r = e.r[0]
      e.is_view(op, o, d)
    elif op == 'align':
      args = [e.arg('a', ('view', 'prim', 'foreign')), e.arg('b', ('view', 'prim'))]
      if it.option('three'):
        args.append(e.arg('c', ('view', 'prim')))
      e.fn('align', *[a[0] for a in args])
      if e.rejects(op, z3.BoolVal(args[0][3] != 'foreign')):
        return
      top = zmax(*[a[2] for a in args])
      e.ob('align: one view per argument', isinstance(e.r, tuple) and len(e.r) == len(args))
      done = 0
      for a, x in zip(args, e.r):
        e.ob('align: all views get the depth of the deepest', it.int_t(x.fields['_depth']) == top)
        if it.tv(x.fields['_obj']).eq(a[1]):
          continue
        r = e.recs[done]
        done += 1
        e.ob('align: expands over the deepest view', it.conj([
            it.tv(x.fields['_obj']) == r.res, len(r.args) == 2, it.tv(r.args[0]) == a[1], it.int_t(r.depths[0]) == a[2],
            it.int_t(r.depths[1]) == top, r.im, it.tv(r.value) == r.leaves[0],
            it.disj([z3.And(it.tv(r.args[1]) == w[1], w[2] == top) for w in args])]))
    elif op == 'view':
      x = z3.Const('anything', Val)
      e.fn('view', SVal(x))
      e.ob('view accepts any object', e.exc is None)
      e.is_view('view', x, z3.IntVal(0))
    elif op == 'nested':
      e.fn('view', e.v)
      e.ob('a View is never wrapped into a View', e.exc is not None and it.exc_matches(e.exc, TypeError))
    else:
      e.do(lambda: it.call(sp.cls, [SVal(z3.Const('anything', Val)), SInt(z3.Int('n')), SVal(z3.Const('tok', Val))], {})
           if it.branch(z3.Const('tok', Val) != it.tv(it.modname(it.prog.module(MOD), '_INTERNAL_CALL'))) else it.throw(ValueError))
      e.ob('the constructor is not public', e.exc is not None and it.exc_matches(e.exc, ValueError))
  return harness


# ---- the kv operators ----

KV = 'koladata.ext.view.kv'
OPS = {  # name -> (method, arguments, keyword arguments)
    'get_attr': ('get_attr', 2, ()), 'set_attrs': ('set_attrs', 0, ('p', 'q')), 'set_item': ('set_item', 2, ()),
    'append': ('append', 1, ()), 'explode': ('explode', 1, ()), 'implode': ('implode', 1, ()),
    'flatten': ('flatten', 2, ()), 'expand_to': ('expand_to', 2, ()), 'get_item': ('get_item', 1, ()),
    'take': ('take', 1, ()), 'group_by': ('group_by', 2, ('sort',)), 'collapse': ('collapse', 1, ()),
    'select': ('select', 2, ()), 'inverse_select': ('inverse_select', 1, ()), 'apply_mask': ('__and__', 1, ()),
    'coalesce': ('__or__', 1, ()), 'equal': ('__eq__', 1, ()), 'not_equal': ('__ne__', 1, ()), 'less': ('__lt__', 1, ()),
    'less_equal': ('__le__', 1, ()), 'greater': ('__gt__', 1, ()), 'greater_equal': ('__ge__', 1, ()),
    'deep_clone': ('deep_clone', 0, ()),
}
NO_RESULT = {'set_attrs', 'set_item', 'append'}


def h_operators(sp):
  def harness(it):
    e = Env(sp, it)
    names = sorted(OPS)
    for op in names[:-1]:
      if it.option(op):
        break
    else:
      op = names[-1]
    method, npos, kws = OPS[op]
    calls = []

    def handler(it_, fn, a, k):
      calls.append((fn, a, k))
      r = it_.new_obj(sp.cls)
      r.fields.update(_obj=SVal(z3.Const('method_result', Val)), _depth=SInt(z3.Int('method_depth')))
      calls[-1] += (r,)
      return r
    sp.contracts[(MOD, f'View.{method}')] = handler
    x, o, d, k = e.arg('v', ('view', 'prim', 'foreign'))
    args = [SVal(z3.Const(f'arg{i}', Val)) for i in range(npos)]
    for a in args:
      it.assume(a.t != it.tv(it.modname(it.prog.module(MOD), 'NO_DEFAULT')))
    kw = {n: SVal(z3.Const(f'kw_{n}', Val)) for n in kws}
    full = it.option('all arguments') if npos or kw else True
    if not full and op not in ('get_attr', 'explode', 'implode', 'flatten', 'expand_to', 'group_by', 'collapse', 'select'):
      full = True
    if not full:
      args, kw = args[:1 if op in ('get_attr', 'expand_to', 'select') else 0], {}
    m = it.prog.module(KV)
    e.do(lambda: it.call(it.modname(m, op), [x] + args, kw))
    what = f'kv.{op}'
    if e.rejects(what, z3.BoolVal(k != 'foreign')):
      return
    if len(calls) != 1:
      raise Unsupported('other use of the method')
    fn, a, kk, r = calls[0]
    got = it.bind(fn, a, kk)
    want = it.bind(fn, [a[0]] + args, kw)
    same = [it.tv(a[0].fields['_obj']) == o, it.int_t(a[0].fields['_depth']) == d]
    flat = lambda v: (list(v) if isinstance(v, tuple) else [y for _, y in sorted(v.items)] if isinstance(v, DictObj) else [v])
    for n in want:
      if n != 'self':
        g, w = flat(got[n]), flat(want[n])
        same += [len(g) == len(w)] + [it.tv(p) == it.tv(q) for p, q in zip(g, w)]
        if isinstance(want[n], DictObj):
          same.append([y for y, _ in sorted(got[n].items)] == [y for y, _ in sorted(want[n].items)])
    e.ob(f'{what}: means the method with the same arguments', it.conj(same))
    if op not in NO_RESULT:
      e.ob(f'{what}: returns the result of the method', e.r is r)
  return harness


def h_deep_map(sp):
  def harness(it):
    e = Env(sp, it)
    inner = []
    f = Builtin('user_f', lambda it_, a, k: SVal(z3.Function(f'user_fn{len(a)}', *[Val] * (len(a) + 1))(*[it_.tv(x) for x in a])))
    im, ns = z3.Bool('im'), z3.String('ns')

    def pymap(it_, a, k):
      if not set(k) <= {'none_is_leaf', 'namespace'}:
        raise Unsupported('pytree.map')
      xs = [z3.Const(f'node{i}', Val) for i in range(len(a) - 1)]
      v = it_.call(a[0], [SVal(x) for x in xs], {})
      inner.append((a[1:], k, xs, v))
      return SVal(z3.Const('pymapped', Val))
    sp.models['optree.pytree.map'] = Builtin('optree.pytree.map', pymap)
    args = [e.arg('a', ('view', 'prim', 'foreign'))]
    if it.option('two'):
      args.append(e.arg('b', ('view', 'prim')))
    kw = {'include_missing': SBool(im), 'namespace': SStr(ns)}
    if it.option('defaults'):
      kw = {}
      it.assume(z3.And(z3.Not(im), ns == ''))
    e.do(lambda: it.call(it.modname(it.prog.module(KV), 'deep_map'), [f] + [a[0] for a in args], kw))
    if e.rejects('kv.deep_map', z3.BoolVal(args[0][3] != 'foreign')):
      return
    e.maps(1)
    r = e.mapped('kv.deep_map', 0, [(a[2], a[1]) for a in args], True)
    if len(inner) != 1:
      raise Unsupported('other use of pytree.map')
    a, k, xs, v = inner[0]
    e.ob('kv.deep_map: maps over the items aligned', it.conj([len(a) == len(r.leaves)] + [it.tv(x) == y for x, y in zip(a, r.leaves)]))
    e.ob('kv.deep_map: None is a leaf of the structures, and the namespace is the given one', it.conj([
        _b(it.truth(k.get('none_is_leaf', False))), it.str_t(k.get('namespace', '')) == ns]))
    none = z3.Or(*[x == NONE for x in xs])
    e.ob('kv.deep_map: leaves with a missing part are missing unless asked for', it.tv(v) == z3.If(
        z3.And(z3.Not(im), none), NONE, z3.Function(f'user_fn{len(xs)}', *[Val] * (len(xs) + 1))(*xs)))
    e.ob('kv.deep_map: the mapped structure is the item', it.tv(r.value) == z3.Const('pymapped', Val))
    e.is_view('kv.deep_map', r.res, zmax(*[a[2] for a in args]))
  return harness


def it_choices(it):
  out = []
  for f in it.pc:
    neg_ = z3.is_not(f)
    c = f.arg(0) if neg_ else f
    if z3.is_const(c) and c.decl().name().startswith('choice_'):
      out.append((c.decl().name()[7:].rsplit('!', 1)[0], not neg_))
  return out


def is_z3x(x):
  return isinstance(x, z3.ExprRef)


PROOFS = {'P22': {
    'lemmas': (ItemSpec, h_lemmas),
    'select': (ItemSpec, h_select),
    'inverse_select': (ItemSpec, h_inverse),
    'collapse': (ItemSpec, h_collapse),
    'group_by': (GroupSpec, h_group),
}, 'P23': {
    'binary operators': (ViewSpec, h_binary),
    'attributes': (ViewSpec, h_attrs),
    'several attributes': (ViewSpec, h_two_attrs),
    'shape': (ViewSpec, h_shape),
    'flatten': (ViewSpec, h_flatten),
    'expand_to': (ViewSpec, h_expand),
    'get slice': (ViewSpec, h_items('slice')),
    'get item': (ViewSpec, h_items('key', 'take')),
    'select': (ViewSpec, h_select_view),
    'inverse_select': (ViewSpec, h_inverse_view),
    'group_by': (ViewSpec, h_group_view),
    'collapse': (ViewSpec, h_collapse_view),
    'map': (ViewSpec, h_map('method')),
    'map_ items': (ViewSpec, h_map('items')),
    'map_ dims': (ViewSpec, h_map('dims')),
    'box and align': (ViewSpec, h_box),
    'operators': (ViewSpec, h_operators),
    'operator deep_map': (ViewSpec, h_deep_map),
    'set item': (ViewSpec, h_items('set slice', 'set_item', 'append')),
}}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h
