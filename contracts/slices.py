"""Contracts for SchemaHelper and DataSliceManager (P24..P28)."""

import z3

from pyvc.core import *
from pyvc import pure as pure_
from pyvc import builtins_model as bm
from contracts.fsmodel import *
from contracts.dbm import call_method, setdom, dictdom, SetArr

SH = 'koladata.ext.storage.schema_helper'
DSP = 'koladata.ext.storage.data_slice_path'
B, I = z3.BoolSort(), z3.IntSort()
BUDGET_S = 400

# Paths.
ValidF = z3.Function('path_exists', Val, B)
NodeF = z3.Function('node_of_path', Val, Val)
# TC(d, x, y): y is reached from x by one or more edges; d is the direction.
Down = z3.Function('descendant', Val, Val, B)
Up = z3.Function('ancestor', Val, Val, B)
WitD = z3.Function('descendant_from', Val, Val)
# Bags and what they contain.
Updated = z3.Function('bags_updated', SeqVal, Val)
Merged = z3.Function('merge_fallbacks', Val, Val)
StubOf = z3.Function('schema_stub', Val, Val)
BagOf = z3.Function('bag_of', Val, Val)
SchemaAt = z3.Function('schema_at_node', Val, Val)


class HelperSpec(FsSpec):
  """A SchemaHelper whose graph is any finite relation with valid names."""

  def __init__(self, prop):
    super().__init__(prop)
    for x in ('koladata.kd', 'koladata.ext.storage.stubs_and_minimal_bags_lib',
              'koladata.ext.storage.schema_helper_mixin'):
      self.externals.add(x)
    self.tests = []
    self.rels = []
    self.checks = []

  def concat(self, it, parts):
    return UNDEF

  def containers(self, it, L):
    out, seen = [], set()
    f = L.frame
    while f is not None and f.fn is not None:
      for n, v in f.locals.items():
        if isinstance(v, (ListObj, DictObj, SetObj, SetDict)) and v.ref not in seen:
          seen.add(v.ref)
          out.append((n, v))
      f = f.closure
    if L.acc is not None and L.acc.ref not in seen:
      out.append(('acc', L.acc))
    return out

  def member(self, it, o):
    if isinstance(o, SetObj):
      d = it.define('members', setdom(it, o)) if o.items else setdom(it, o)
      return lambda k: d[k]
    s = it.seq_term(o)
    return lambda k: seqs.has(s, k)

  def loop_invariants(self, it, L):
    c = []
    j = z3.Int('j')
    k, x, y = z3.Consts('k x y', Val)
    cs = self.containers(it, L)
    if L.phase == 'entry':
      L.data['m'] = {o.ref: self.member(it, o) for _, o in cs if isinstance(o, (SetObj, ListObj)) and self.flat(o)}
      L.data['sd'] = {o.ref: (o.dom, o.mem) for _, o in cs if isinstance(o, SetDict)}
    sets = [(n, o) for n, o in cs if o.ref in L.data['m']]
    elems, rng, pats = [], None, []
    if L.kind == 'for':
      try:
        e = L.at(j)
      except Unsupported:
        e = ()
      e = e if isinstance(e, tuple) else (e,)
      elems = [self.vterm(v) for v in e]
      rng = z3.And(0 <= j, j < L.i)
      pats = pure_.source_patterns(it, L.at)(j)
    for n, o in cs:
      if isinstance(o, SetDict):
        c += self.sd_invariants(it, L, n, o, e if L.kind == 'for' else (), elems, rng, pats)
    for m, t in enumerate(elems):
      if t is not None:
        for nm, P in self.checks:
          c.append((f'{nm}: the elements so far [{m}]', FA([j], z3.Implies(rng, P(t)), patterns=pats)))
    for n1, a in sets:
      A, A0 = self.member(it, a), L.data['m'][a.ref]
      keep = [A0(k)] if z3.is_app(A0(k)) and not z3.is_K(A0(k).arg(0)) else []
      c.append((f'{n1}: grows', FA([k], z3.Implies(A0(k), A(k)), patterns=[A(k)] + keep)))
      for nm, T in self.tests:
        c.append((f'{n1} within {nm}', FA([k], z3.Implies(A(k), T(k)), patterns=[A(k)])))
      for m, t in enumerate(elems):
        if t is None:
          continue
        c.append((f'{n1}: has the elements so far [{m}]', FA([j], z3.Implies(rng, A(t)), patterns=pats)))
        for nr, R in self.rels:
          c.append((f'{n1}: has the {nr} successors of the elements so far [{m}]', FA([j, y], z3.Implies(
              z3.And(rng, R(t, y)), A(y)), patterns=[z3.MultiPattern(p, R(t, y)) for p in pats])))
      for n2, b in sets:
        if a is b:
          continue
        Bm = self.member(it, b)
        c.append((f'{n1} or {n2}: keeps {n1}', FA([k], z3.Implies(
            A0(k), z3.Or(A(k), Bm(k))), patterns=keep or [A(k)])))
        for nr, R in self.rels:
          c.append((f'{nr}: successors of {n1} are in {n1} or {n2}', FA([x, y], z3.Implies(
              z3.And(A(x), R(x, y)), z3.Or(A(y), Bm(y))),
                                       patterns=[z3.MultiPattern(A(x), R(x, y))])))
          for nm, S0 in getattr(self, 'starts', ()):
            c.append((f'{nr}: successors of {nm} are in {n1} or {n2}', FA([x, y], z3.Implies(
                z3.And(S0(x), R(x, y)), z3.Or(A(y), Bm(y))),
                                         patterns=[z3.MultiPattern(S0(x), R(x, y))])))
      for nr, R in self.rels:
        for nm, S0 in getattr(self, 'starts', ()):
          c.append((f'{nr}: successors of {nm} are in {n1}', FA([x, y], z3.Implies(
              z3.And(S0(x), R(x, y)), A(y)), patterns=[z3.MultiPattern(S0(x), R(x, y))])))
    return c

  def sd_invariants(self, it, L, n, o, e, elems, rng, pats):
    return []

  def flat(self, o):
    return not (isinstance(o, ListObj) and o.items is not None and any(
        isinstance(x, (ListObj, DictObj, SetObj)) for x in o.items))

  def vterm(self, v):
    if isinstance(v, SVal):
      return v.t
    if isinstance(v, SStr):
      return Val.str(v.t)
    return None

  def sym_set(self, it, name):
    s = it.new_set()
    s.items = None
    s.dom = it.fresh(name, SetArr)
    s.card = it.fresh('card', I)
    it.assume(s.card >= 0)
    return s

  def sym_rel(self, it, name, strict):
    o = SetDict(it.newref(), it.tick())
    it.objs[o.ref] = o
    o.dom = it.fresh(name + '_dom', SetArr)
    o.mem = it.fresh(name + '_mem', z3.ArraySort(Val, SetArr))
    o.strict = strict
    return o

  def helper(self, it, real_init=False):
    """A SchemaHelper in any state its constructor can produce."""
    m = it.prog.module(SH)
    cls = it.modname(m, 'SchemaHelper')
    o = it.new_obj(cls)
    g = self.sym_rel(it, 'children', True)
    p = self.sym_rel(it, 'parents', False)
    x, y = z3.Consts('x y', Val)
    # Proved: P24 'analyze' (closed graph) and P24 'converse'.
    it.assume_q(FA([x], z3.Implies(g.dom[x], Val.is_str(x)), patterns=[g.dom[x]]))
    it.assume_q(FA([x, y], z3.Implies(z3.And(g.dom[x], g.mem[x][y]), g.dom[y]), patterns=[g.mem[x][y]]))
    it.assume_q(FA([x, y], z3.Implies(p.mem[y][x], z3.And(p.dom[y], g.dom[x], g.mem[x][y])), patterns=[p.mem[y][x]]))
    it.assume_q(FA([x, y], z3.Implies(z3.And(g.dom[x], g.mem[x][y]), p.mem[y][x]), patterns=[g.mem[x][y]]))
    o.fields['_parent_to_child_graph'] = g
    o.fields['_child_to_parent_graph'] = p
    o.fields['_schema'] = SVal(z3.Const('the_schema', Val))
    d = it.new_dict_sym('schemas')
    it.assume_q(FA([x], d.dom[x] == g.dom[x], patterns=[d.dom[x], g.dom[x]]))
    it.assume_q(FA([x], z3.Implies(d.dom[x], d.val[x] == SchemaAt(x)), patterns=[d.val[x]]))
    o.fields['_schema_node_name_to_schema'] = d
    self.g, self.p, self.h = g, p, o
    self.G, self.M, self.PM, self.PD = g.dom, g.mem, p.mem, p.dom
    return o

  def same_helper(self, it):
    g, p, o = self.g, self.p, self.h
    x, y = z3.Consts('x y', Val)
    return z3.And(g.dom == self.G, g.mem == self.M,
                  FA([x, y], z3.And(p.dom[x], p.mem[x][y]) == z3.And(self.PD[x], self.PM[x][y])))


def closure_harness(sp):
  """_get_transitive_closure_image: least closed set with the successors."""
  def harness(it):
    strict = it.option('plain dict')
    r = sp.sym_rel(it, 'relation', strict)
    s = sp.sym_set(it, 'of_set')
    x, y = z3.Consts('x y', Val)
    S0, R0, D0 = s.dom, r.mem, r.dom
    if strict:
      it.assume_q(FA([x], z3.Implies(S0[x], D0[x]), patterns=[S0[x]]))
      it.assume_q(FA([x, y], z3.Implies(R0[x][y], D0[y]), patterns=[R0[x][y]]))
    it.assume_q(FA([x, y], z3.Implies(R0[x][y], D0[x]), patterns=[R0[x][y]]))
    T = it.fresh('T', SetArr)
    it.assume_q(FA([x, y], z3.Implies(z3.And(S0[x], R0[x][y]), T[y]), patterns=[R0[x][y]]))
    it.assume_q(FA([x, y], z3.Implies(z3.And(T[x], R0[x][y]), T[y]), patterns=[z3.MultiPattern(T[x], R0[x][y])]))
    sp.tests = [('T', lambda k: T[k])] + ([('keys', lambda k: D0[k])] if strict else [])
    sp.rels = [('relation', lambda a, b: R0[a][b])]
    sp.starts = [('of_set', lambda k: S0[k])]
    sp.R0, sp.r = R0, r
    m = it.prog.module(SH)
    f = it.modname(m, '_get_transitive_closure_image')
    try:
      res = it.call(f, [r, s], {})
    except PyRaise as e:
      sp.ob(it, 'P25', 'closure: does not fail', False)
      return
    it.cover('strict' if strict else 'default')
    if not isinstance(res, SetObj):
      sp.ob(it, 'P25', 'closure: a set', False)
      return
    A = setdom(it, res)
    sp.ob(it, 'P25', 'closure: the successors of the start', FA([x, y], z3.Implies(
        z3.And(S0[x], R0[x][y]), A[y])))
    sp.ob(it, 'P25', 'closure: the successors of its elements', FA([x, y], z3.Implies(
        z3.And(A[x], R0[x][y]), A[y])))
    sp.ob(it, 'P25', 'closure: within every such set', FA([x], z3.Implies(A[x], T[x])))
    sp.ob(it, 'P25', 'closure: the relation is unchanged', FA([x, y], r.mem[x][y] == R0[x][y]))
    if s is not res:
      sp.ob(it, 'P25', 'closure: the start is unchanged', setdom(it, s) == S0)
    else:
      sp.ob(it, 'P25', 'closure: the start is unchanged', False)
  return harness


class ClosureImage(HelperSpec):

  def sd_invariants(self, it, L, n, o, e, elems, rng, pats):
    x, y = z3.Consts('x y', Val)
    c = []
    d0, m0 = L.data['sd'][o.ref]
    c.append((f'{n}: same pairs', FA([x, y], o.mem[x][y] == m0[x][y], patterns=[o.mem[x][y], m0[x][y]])))
    c.append((f'{n}: pairs have keys', FA([x, y], z3.Implies(o.mem[x][y], o.dom[x]), patterns=[o.mem[x][y]])))
    c.append((f'{n}: keys grow', FA([x], z3.Implies(d0[x], o.dom[x]), patterns=[o.dom[x], d0[x]])))
    return c


class QuerySpec(HelperSpec):
  """The queries of SchemaHelper over the contract of the closure."""

  def __init__(self, prop):
    super().__init__(prop)
    self.contracts[(SH, '_get_transitive_closure_image')] = self.c_closure
    self.contracts[(SH, '_get_schema_node_name_for_data_slice_path')] = self.c_node

  def base_facts(self, it):
    """Down and Up are the transitive closures of the graph and its converse
    (each the least such relation, which is what the closure proof gives)."""
    x, y = z3.Consts('x y', Val)
    G, M = self.G, self.M
    self.checks = [('nodes', lambda t: G[t]), ('valid paths', ValidF)]
    it.assume_q(FA([x, y], z3.Implies(z3.And(G[x], M[x][y]), Down(x, y)), patterns=[M[x][y]]))
    it.assume_q(FA([x, y], z3.Implies(Down(x, y), z3.And(G[x], G[y])), patterns=[Down(x, y)]))
    it.assume_q(FA([x, y], Down(x, y) == Up(y, x), patterns=[Down(x, y), Up(y, x)]))
    it.assume_q(FA([x], z3.Implies(ValidF(x), z3.And(G[NodeF(x)], Val.is_str(NodeF(x)))), patterns=[NodeF(x)]))

  def c_closure(self, it, fn, a, k):
    """Proved: P25 'closure'."""
    args = dict(zip(('relation', 'of_set'), a), **k)
    r, s = args['relation'], args['of_set']
    rel = Down if r is self.g else Up if r is self.p else None
    if rel is None:
      raise Unsupported('closure of another relation')
    if isinstance(s, (ListObj, STup, tuple)) or not isinstance(s, (SetObj, bm.KeysView)):
      s = bm.as_set(it, s)
    A = it.define('of_set', setdom(it, s) if isinstance(s, SetObj) else dictdom(it, s.d)[0])
    x, y = z3.Consts('x y', Val)
    if rel is Down:
      self.ob(it, self.prop, 'closure: the start are nodes', FA([x], z3.Implies(A[x], self.G[x])))
    res = self.sym_set(it, 'closure')
    it.nfresh += 1
    w = z3.Function(f'closure_from!{it.nfresh}', Val, Val)
    it.assume_q(FA([y], z3.Implies(res.dom[y], z3.And(A[w(y)], rel(w(y), y))), patterns=[res.dom[y]]))
    it.assume_q(FA([x, y], z3.Implies(z3.And(A[x], rel(x, y)), res.dom[y]), patterns=[z3.MultiPattern(A[x], rel(x, y))]))
    return res

  def c_node(self, it, fn, a, k):
    """Proved: P25 'path'."""
    args = dict(zip(('schema', 'data_slice_path'), a), **k)
    self.ob(it, self.prop, 'the path is looked up in the schema of the helper',
            it.tv(args['schema']) == z3.Const('the_schema', Val))
    t = it.tv(args['data_slice_path'])
    if not it.pure and not it.branch(ValidF(t)):
      it.throw(ValueError, 'invalid path')
    if it.pure:
      if it.entails(ValidF(t), 2000, True) != 'unsat':
        raise pure_.NotPure('may raise')
    return SStr(Val.s(NodeF(t)))

  def opaque_attr(self, it, v, name, default):
    return super().opaque_attr(it, v, name, default)

  def paths(self, it, name):
    """None, or any collection of paths."""
    if it.option(name + ' is None'):
      return None, lambda k: z3.BoolVal(False), None
    q = it.fresh(name, SeqVal)
    i = z3.Int('i')
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < Length(q)), Val.is_ref(q[i])), patterns=[q[i]]))
    return it.new_list_sym(q), lambda k: seqs.has(q, k), q


def names_in(sp, it, n):
  s = sp.sym_set(it, n)
  k = z3.Const('k', Val)
  it.assume_q(FA([k], z3.Implies(s.dom[k], Val.is_str(k)), patterns=[s.dom[k]]))
  return s


def h_reach(sp):
  def harness(it):
    h = sp.helper(it)
    sp.base_facts(it)
    x, y = z3.Consts('x y', Val)
    up = it.option('ancestors')
    s = names_in(sp, it, 'names')
    S0 = s.dom
    what = 'ancestors' if up else 'descendants'
    r, exc = call_method(it, h, 'get_ancestor_schema_node_names' if up else 'get_descendant_schema_node_names', [s])
    known = FA([x], z3.Implies(S0[x], sp.G[x]))
    if exc is not None:
      it.cover(f'{what}: rejected')
      sp.ob(it, 'P25', f'{what}: only unknown names are rejected, with ValueError', z3.And(
          it.exc_matches(exc, ValueError), z3.Not(known)))
      return
    it.cover(what)
    sp.ob(it, 'P25', f'{what}: unknown names are rejected', known)
    A = sp.member(it, r)
    rel = Up if up else Down
    sp.ob(it, 'P25', f'{what}: contains all', FA([x, y], z3.Implies(z3.And(S0[x], rel(x, y)), A(y))))
    sp.ob(it, 'P25', f'{what}: contains no others', FA([y], z3.Implies(A(y), z3.Exists([x], z3.And(S0[x], rel(x, y))))))
    sp.ob(it, 'P25', f'{what}: the helper is unchanged', sp.same_helper(it))
  return harness


def h_needed(sp):
  def harness(it):
    h = sp.helper(it)
    sp.base_facts(it)
    x, y, p = z3.Consts('x y p', Val)
    a, inA, qa = sp.paths(it, 'populate')
    b, inB, qb = sp.paths(it, 'populate_including_descendants')
    i = z3.Int('i')
    valid = z3.And(*[FA([i], z3.Implies(z3.And(0 <= i, i < Length(q)), ValidF(q[i]))) for q in (qa, qb) if q is not None], True)
    r, exc = call_method(it, h, 'get_schema_node_names_needed_to', [], {
        'populate': a, 'populate_including_descendants': b})
    if exc is not None:
      it.cover('rejected')
      sp.ob(it, 'P25', 'needed: only invalid paths are rejected, with ValueError', z3.And(
          it.exc_matches(exc, ValueError), z3.Not(valid)))
      return
    it.cover('needed')
    sp.ob(it, 'P25', 'needed: invalid paths are rejected', valid)
    A = sp.member(it, r)
    sp.ob(it, 'P25', 'needed: the node of each path to populate', FA([p], z3.Implies(inA(p), A(NodeF(p)))))
    sp.ob(it, 'P25', 'needed: the node of each path to populate with descendants', FA([p], z3.Implies(inB(p), A(NodeF(p)))))
    sp.ob(it, 'P25', 'needed: all descendants where asked for', FA([p, y], z3.Implies(
        z3.And(inB(p), Down(NodeF(p), y)), A(y))))
    sp.ob(it, 'P25', 'needed: all ancestors of the nodes to populate', FA([p, y], z3.Implies(
        z3.And(inA(p), Up(NodeF(p), y)), A(y))))
    sp.ob(it, 'P25', 'needed: all ancestors of the nodes to populate with descendants', FA([p, y], z3.Implies(
        z3.And(inB(p), Up(NodeF(p), y)), A(y))))
    sp.ob(it, 'P25', 'needed: all ancestors of the descendants', FA([p, x, y], z3.Implies(
        z3.And(inB(p), Down(NodeF(p), x), Up(x, y)), A(y))))
    seed = lambda t: z3.Exists([p], z3.Or(
        z3.And(z3.Or(inA(p), inB(p)), NodeF(p) == t), z3.And(inB(p), Down(NodeF(p), t))))
    sp.ob(it, 'P25', 'needed: nothing else', FA([y], z3.Implies(A(y), z3.Or(
        seed(y), z3.Exists([x], z3.And(seed(x), Up(x, y)))))))
    sp.ob(it, 'P25', 'needed: the helper is unchanged', sp.same_helper(it))
  return harness


def h_exists(sp):
  def harness(it):
    h = sp.helper(it)
    sp.base_facts(it)
    t = it.fresh('path', Val)
    it.assume(Val.is_ref(t))
    r, exc = call_method(it, h, 'exists', [SVal(t)])
    sp.ob(it, 'P25', 'exists does not fail', exc is None)
    if exc is None:
      it.cover('exists')
      v = it.truth(r)
      sp.ob(it, 'P25', 'exists: exactly for the valid paths', ValidF(t) == v)
  return harness


# -- the node of a path: a fold over the actions --
SubOk = z3.Function('action_applies', Val, Val, B)
SubF = z3.Function('subschema', Val, Val, Val)
NameT = z3.Function('node_name', Val, Val, Val, Val)
NameOk = z3.Function('node_name_defined', Val, Val, Val, B)


class PathSpec(HelperSpec):

  def __init__(self, prop):
    super().__init__(prop)
    self.contracts[(SH, 'get_schema_node_name')] = self.c_name
    self.contracts[(DSP, 'DataSlicePath.from_actions')] = lambda it, fn, a, k: SVal(it.fresh('path', Val))
    self.Fold = z3.Function('schema_after', I, Val)

  def c_name(self, it, fn, a, k):
    """Proved: P24 'name'."""
    p, x, c = it.tv(k['parent_schema_item']), it.tv(k['action']), it.tv(k['child_schema_item'])
    if not it.branch(NameOk(p, x, c)):
      it.throw(ValueError, 'unsupported schema')
    return SStr(Val.s(NameT(p, x, c)))

  def instantiate(self, it, cls, args, kwargs):
    if cls.name == 'DataSlicePath':  # only formatted, for error messages
      return SVal(it.fresh('path', Val))
    return super().instantiate(it, cls, args, kwargs)

  def opaque_attr(self, it, v, name, default):
    if name == 'actions':
      if v.t.eq(self.path):
        return STup(self.A)
      raise Unsupported('actions of another path')
    if name == 'get_subschema':
      def f(it, a, k):
        s = it.tv(a[0])
        if not it.branch(SubOk(s, v.t)):
          m = it.prog.module(DSP)
          it.throw(it.modname(m, 'IncompatibleSchemaError'), 'incompatible')
        return SVal(SubF(s, v.t))
      return Builtin('action.get_subschema', f)
    return super().opaque_attr(it, v, name, default)

  def loop_invariants(self, it, L):
    c = super().loop_invariants(it, L)
    if L.kind != 'for':
      return c
    j, i = z3.Int('j'), L.i
    F, A = self.Fold, self.A
    c.append(('the actions so far apply', FA([j], z3.Implies(z3.And(0 <= j, j < i), SubOk(F(j), A[j])), patterns=[F(j)])))
    f = L.frame
    while f is not None and f.fn is not None:
      for n, v in f.locals.items():
        if v is None or isinstance(v, (SVal, SStr)):
          t = it.tv(v)
          c.append((f'{n} is the schema after the actions so far', t == F(i)))
          c.append((f'{n} is the schema before the last action', t == z3.If(i == 0, NONE, F(i - 1))))
          c.append((f'{n} is the last action', t == z3.If(i == 0, NONE, A[i - 1])))
      f = f.closure
    return c


def h_path(sp):
  def harness(it):
    m = it.prog.module(SH)
    f = it.modname(m, '_get_schema_node_name_for_data_slice_path')
    A = it.fresh('actions', SeqVal)
    sp.A = A
    n = Length(A)
    i = z3.Int('i')
    s0 = it.fresh('schema', Val)
    F = sp.Fold
    it.assume(Val.is_ref(s0))
    it.assume(F(0) == s0)
    sp.path = it.fresh('data_slice_path', Val)
    it.assume(Val.is_ref(sp.path))
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
        Val.is_ref(A[i]), F(i + 1) == SubF(F(i), A[i]), Val.is_ref(F(i + 1)))), patterns=[A[i]]))
    it.assume_q(FA([i], z3.Implies(z3.And(0 <= i, i < n), A[i] == A[i]), patterns=[F(i)]))
    p = z3.If(n == 0, NONE, F(n - 1))
    a = z3.If(n == 0, NONE, A[n - 1])
    it.assume_q(z3.Const('last', Val) == A[n - 1])
    x, y, z = z3.Consts('x y z', Val)
    it.assume_q(FA([x, y, z], Val.is_str(NameT(x, y, z)), patterns=[NameT(x, y, z)]))
    ok = FA([i], z3.Implies(z3.And(0 <= i, i < n), SubOk(F(i), A[i])), patterns=[F(i)])
    named = NameOk(p, a, F(n))
    try:
      r, exc = it.call(f, [SVal(s0), SVal(sp.path)], {}), None
    except PyRaise as e:
      r, exc = None, e.exc
    if exc is not None:
      it.cover('invalid')
      sp.ob(it, 'P25', 'path: only a path that does not apply is rejected, with ValueError', z3.And(
          it.exc_matches(exc, ValueError), z3.Not(z3.And(ok, named))))
      return
    it.cover('valid')
    sp.ob(it, 'P25', 'path: a path that does not apply is rejected', FA([i], z3.Implies(
        z3.And(0 <= i, i < n), SubOk(F(i), A[i]))))
    sp.ob(it, 'P25', 'path: the name of the last edge', it.tv(r) == NameT(p, a, F(n)))
  return harness


# -- the schema bag of a set of nodes --
PF = z3.Function('pair_parent', Val, Val)
CF = z3.Function('pair_child', Val, Val)


class BagSpec(QuerySpec):

  def __init__(self, prop):
    super().__init__(prop)
    self.models['koladata.kd.bags.updated'] = Builtin('kd.bags.updated', self.m_updated)
    self.models['koladata.ext.storage.stubs_and_minimal_bags_lib.schema_stub'] = Builtin(
        'schema_stub', lambda it, a, k: SVal(StubOf(it.tv(a[0]))))

  def m_updated(self, it, a, k):
    if len(a) == 1 and type(a[0]).__name__ == '_StarSeq':
      return SVal(Updated(a[0].seq))
    return SVal(Updated(it.seq_of(a)))

  def opaque_attr(self, it, v, name, default):
    if name == 'get_bag':
      return Builtin('get_bag', lambda it, a, k: SVal(BagOf(v.t)))
    if name == 'merge_fallbacks':
      return Builtin('merge_fallbacks', lambda it, a, k: SVal(Merged(v.t)))
    return super().opaque_attr(it, v, name, default)

  def sorted_(self, it, v, k):
    if isinstance(v, bm.EnumPairs) and not k:
      it.nfresh += 1
      perm = z3.Function(f'sorted_at!{it.nfresh}', I, I)
      inv = z3.Function(f'sorted_from!{it.nfresh}', I, I)
      j = z3.Int('j')
      n = v.length
      it.assume_q(FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
          0 <= perm(j), perm(j) < n, inv(perm(j)) == j)), patterns=[perm(j)]))
      pats = []
      if hasattr(v, 'keys'):
        pats = [v.keys.at(j)]
      it.assume_q(FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
          0 <= inv(j), inv(j) < n, perm(inv(j)) == j)), patterns=pats or [inv(j)]))
      e = bm.EnumPairs(n, lambda i: v.at(perm(i)))
      return e
    return UNDEF


def cat_parts(s):
  """The sequences a concatenation consists of."""
  if z3.is_app(s) and s.decl().name() == 'seq_cat':
    return [y for c in s.children() for y in cat_parts(c)]
  return [s]


def h_bag(sp):
  def harness(it):
    h = sp.helper(it)
    sp.base_facts(it)
    x, k = z3.Consts('x k', Val)
    p, c = z3.Consts('p c', Val)
    d = it.new_dict_sym('relationship_bags')
    d.keywrap = lambda it, t: (SVal(PF(t)), SVal(CF(t)))
    tup = lambda p, c: Val.tup(seqs.seq_of_terms([p, c]))
    it.assume_q(FA([x], z3.Implies(d.dom[x], z3.And(
        x == tup(PF(x), CF(x)), Val.is_str(PF(x)), Val.is_str(CF(x)))), patterns=[d.dom[x]]))
    it.assume_q(FA([p, c], z3.And(PF(tup(p, c)) == p, CF(tup(p, c)) == c), patterns=[tup(p, c)]))
    h.fields['_parent_and_child_to_schema_bag'] = d
    D0, V0 = d.dom, d.val
    s = names_in(sp, it, 'names')
    S0 = s.dom
    known = FA([x], z3.Implies(S0[x], sp.G[x]))
    r, exc = call_method(it, h, 'get_schema_bag', [s])
    if exc is not None:
      it.cover('rejected')
      sp.ob(it, 'P25', 'schema bag: only unknown names are rejected, with ValueError', z3.And(
          it.exc_matches(exc, ValueError), z3.Not(known)))
      return
    it.cover('bag')
    sp.ob(it, 'P25', 'schema bag: unknown names are rejected', known)
    t = it.tv(r)
    while z3.is_app(t) and t.decl().eq(Merged):
      t = t.arg(0)
    ok = z3.is_app(t) and t.decl().eq(Updated)
    sp.ob(it, 'P25', 'schema bag: a merge of bags', ok)
    if not ok:
      return
    parts = cat_parts(t.arg(0))
    has = lambda y: z3.Or(*[seqs.has(q, y) for q in parts], False)
    stub = lambda n: BagOf(StubOf(SchemaAt(n)))
    none = Val.str(z3.StringVal('__NONE__'))
    rel = lambda y: z3.And(D0[y], S0[CF(y)], z3.Or(PF(y) == none, S0[PF(y)]))
    x0, i0 = it.fresh('pair', Val), it.fresh('index', I)
    sp.ob(it, 'P25', 'schema bag: the stub of every node', z3.Implies(S0[x0], has(stub(x0))))
    sp.ob(it, 'P25', 'schema bag: every relationship between the nodes, and the root', z3.Implies(
        rel(x0), has(V0[x0])))
    for q in parts:
      inr = z3.And(0 <= i0, i0 < Length(q))
      sp.ob(it, 'P25', 'schema bag: nothing else', z3.Implies(inr, z3.Or(
          z3.Exists([x], z3.And(S0[x], q[i0] == stub(x))), z3.Exists([x], z3.And(rel(x), q[i0] == V0[x])))))
  return harness


# ------------------------------------------------- P24: names, the two graphs --

HasId = z3.Function('schema_has_item_id', Val, B)
IdOf = z3.Function('item_id_of', Val, Val)
EncS = z3.Function('base62', Val, S)
KindOf = z3.Function('schema_kind', Val, Val)
Prim = z3.Function('is_primitive_schema', Val, B)
Shown = z3.Function('schema_as_text', Val, S)
OpF = z3.Function('subschema_operation', Val, S)
KINDS = ('ITEMID', 'NONE', 'OBJECT', 'SCHEMA')


class NameSpec(Spec):
  """get_schema_node_name for opaque schemas and actions; native strings."""

  def __init__(self, prop):
    super().__init__()
    self.prop = prop
    for x in ('koladata.kd', 'koladata.ext.storage.stubs_and_minimal_bags_lib',
              'koladata.ext.storage.schema_helper_mixin'):
      self.externals.add(x)
    self.K = {n: z3.Const('schema_' + n, Val) for n in KINDS}
    for n, t in self.K.items():
      self.models['koladata.kd.' + n] = SVal(t)
    self.models['koladata.kd.encode_itemid'] = Builtin(
        'kd.encode_itemid', lambda it, a, k: ExtRefEnc(it.tv(a[0]), self))

  def ob(self, it, prop, name, f):
    it.oblige(prop + ': ' + name, f)

  def setup(self, it):
    ks = list(self.K.values())
    it.assume(z3.Distinct(*[KindOf(k) for k in ks]))
    for k in ks:
      it.assume(z3.And(Val.is_ref(k), z3.Not(HasId(k)), z3.Not(Prim(k))))

  def opaque_attr(self, it, v, name, default):
    t = v.t
    b = lambda f: Builtin(name, f)
    if name == 'get_itemid':
      def f(it, a, k):
        if not it.branch(HasId(t)):
          it.throw(ValueError, 'no item id')
        it.assume(Val.is_ref(IdOf(t)))
        return SVal(IdOf(t))
      return b(f)
    if name == 'no_bag':
      return b(lambda it, a, k: SVal(t))
    if name == 'to_py' and z3.is_app(t) and t.decl().eq(Val.str):
      return b(lambda it, a, k: SStr(t.arg(0)))
    if name == 'is_primitive_schema':
      return b(lambda it, a, k: SBool(Prim(t)))
    if name == 'get_subschema_operation':
      return b(lambda it, a, k: SStr(OpF(t)))
    return UNDEF

  def opaque_eq(self, it, a, b):
    if isinstance(a, SVal) and isinstance(b, SVal):
      # schemas without an item id are equal when they are the same schema
      return KindOf(a.t) == KindOf(b.t)
    return UNDEF

  def format_value(self, it, v, p):
    if isinstance(v, SVal) and p.format_spec is None and p.conversion in (-1, 115):
      return SStr(Shown(v.t))
    return UNDEF


def ExtRefEnc(t, sp):
  return SVal(Val.str(EncS(t)))


def h_name(sp):
  def harness(it):
    sp.setup(it)
    ref = lambda n: it.fresh(n, Val)
    c = ref('child')
    it.assume(Val.is_ref(c))
    root = it.option('root')
    p = x = None
    if not root:
      p, x = ref('parent'), ref('action')
      it.assume(z3.And(Val.is_ref(p), Val.is_ref(x), HasId(p)))
    # A schema is a struct schema with an item id, a primitive one or one of four others.
    it.assume(z3.Implies(HasId(c), z3.And(*[KindOf(c) != KindOf(k) for k in sp.K.values()], z3.Not(Prim(c)))))
    it.assume(z3.Implies(Prim(c), z3.And(*[KindOf(c) != KindOf(k) for k in sp.K.values()])))
    it.assume(z3.Or(HasId(c), Prim(c), *[KindOf(c) == KindOf(k) for k in sp.K.values()]))
    f = it.modname(it.prog.module(SH), 'get_schema_node_name')
    w = lambda t: None if t is None else SVal(t)
    try:
      r = it.call(f, [], {'parent_schema_item': w(p), 'action': w(x), 'child_schema_item': SVal(c)})
    except PyRaise as e:
      it.cover('refused')
      sp.ob(it, 'P24', 'name: only OBJECT and SCHEMA have none, with ValueError', z3.And(
          it.exc_matches(e.exc, ValueError),
          z3.Or(KindOf(c) == KindOf(sp.K['OBJECT']), KindOf(c) == KindOf(sp.K['SCHEMA']))))
      return
    it.cover('named')
    t = it.str_t(r) if isinstance(r, (str, SStr)) else Val.s(it.tv(r))
    sp.ob(it, 'P24', 'name: OBJECT and SCHEMA have none', z3.And(
        KindOf(c) != KindOf(sp.K['OBJECT']), KindOf(c) != KindOf(sp.K['SCHEMA'])))
    sp.ob(it, 'P24', 'name: a schema with an item id is known by it', z3.Implies(HasId(c), t == EncS(IdOf(c))))
    leaf = z3.Concat(z3.StringVal('.' if root else ''), z3.StringVal(':'), Shown(c)) if root else z3.Concat(
        EncS(IdOf(p)), OpF(x), z3.StringVal(':'), Shown(c))
    sp.ob(it, 'P24', 'name: another one by its place and kind', z3.Implies(z3.Not(HasId(c)), t == leaf))
  return harness


class ConverseSpec(HelperSpec):
  """Loops over a relation that build its converse."""

  def sd_invariants(self, it, L, n, o, e, elems, rng, pats):
    c = []
    if o is self.r:
      return c
    x, y, z = z3.Consts('x y z', Val)
    j = z3.Int('j')
    R = self.R0
    d0, m0 = L.data['sd'][o.ref]
    c.append((f'{n}: only converse pairs', FA([x, y], z3.Implies(
        o.mem[y][x], z3.And(o.dom[y], self.D0[x], R[x][y])), patterns=[o.mem[y][x]])))
    c.append((f'{n}: grows', FA([x, y], z3.Implies(m0[y][x], o.mem[y][x]), patterns=[o.mem[y][x], m0[y][x]])))
    for m, t in enumerate(elems):
      if t is None:
        continue
      c.append((f'{n}: all pairs of the keys so far [{m}]', FA([j, y], z3.Implies(
          z3.And(rng, R[t][y]), o.mem[y][t]), patterns=[z3.MultiPattern(p, R[t][y]) for p in pats])))
      cur = self.current(it, L)
      if cur is not None:
        c.append((f'{n}: the pairs of this key so far [{m}]', FA([j], z3.Implies(
            rng, o.mem[t][cur]), patterns=pats)))
    return c

  def current(self, it, L):
    """The key of the loop around this one."""
    f = L.frame
    for v in f.locals.values():
      if isinstance(v, (SVal, SStr)):
        t = self.vterm(v)
        if it.entails(self.D0[t], 500, True) == 'unsat':
          return t
    return None


def h_converse(sp):
  def harness(it):
    r = sp.r = sp.sym_rel(it, 'relation', True)
    sp.D0, sp.R0 = r.dom, r.mem
    x, y = z3.Consts('x y', Val)
    it.assume_q(FA([x, y], z3.Implies(r.mem[x][y], r.dom[x]), patterns=[r.mem[x][y]]))
    f = it.modname(it.prog.module(SH), '_get_converse_relation')
    try:
      res = it.call(f, [r], {})
    except PyRaise:
      sp.ob(it, 'P24', 'converse: does not fail', False)
      return
    it.cover('converse')
    if not isinstance(res, SetDict):
      raise Unsupported('result of _get_converse_relation')
    sp.ob(it, 'P24', 'converse: every pair, reversed', FA([x, y], z3.Implies(
        sp.R0[x][y], z3.And(res.dom[y], res.mem[y][x]))))
    sp.ob(it, 'P24', 'converse: nothing else', FA([x, y], z3.Implies(
        z3.And(res.dom[y], res.mem[y][x]), sp.R0[x][y])))
    sp.ob(it, 'P24', 'converse: the relation is unchanged', z3.And(r.mem == sp.R0, r.dom == sp.D0))
    sp.ob(it, 'P24', 'converse: nodes without edges have no neighbours', z3.BoolVal(not getattr(res, 'strict', False)))
  return harness


def h_accessors(sp):
  def harness(it):
    h = sp.helper(it)
    x, y = z3.Consts('x y', Val)
    G, M, PM = sp.G, sp.M, sp.PM
    W = z3.Function('some_child', Val, Val)
    it.assume_q(FA([x, y], z3.Implies(M[x][y], M[x][W(x)]), patterns=[M[x][y]]))
    n = it.fresh('name', Val)
    it.assume(Val.is_str(n))
    sets = {'get_all_schema_node_names': lambda k: G[k],
            'get_leaf_schema_node_names': lambda k: z3.And(G[k], z3.Not(M[k][W(k)])),
            'get_non_leaf_schema_node_names': lambda k: z3.And(G[k], M[k][W(k)])}
    of = {'get_parent_schema_node_names': lambda k: PM[n][k], 'get_child_schema_node_names': lambda k: M[n][k]}
    tests = {'is_valid_schema_node_name': lambda: G[n],
             'is_leaf_schema_node_name': lambda: z3.And(G[n], z3.Not(M[n][W(n)])),
             'is_non_leaf_schema_node_name': lambda: z3.And(G[n], M[n][W(n)])}
    what = None
    for f in [*sets, *of, *tests]:
      if it.option(f):
        what = f
        break
    if what is None:
      r, exc = call_method(it, h, 'get_subschema_at', [SVal(n)])
      if exc is not None:
        it.cover('no subschema')
        sp.ob(it, 'P24', 'get_subschema_at: only unknown names are rejected, with ValueError', z3.And(
            it.exc_matches(exc, ValueError), z3.Not(G[n])))
      else:
        it.cover('subschema')
        sp.ob(it, 'P24', 'get_subschema_at: the schema of the node', z3.And(G[n], it.tv(r) == SchemaAt(n)))
      return
    r, exc = call_method(it, h, what, [] if what in sets else [SVal(n)])
    if exc is not None:
      it.cover(what + ': rejected')
      ok = z3.And(it.exc_matches(exc, ValueError), z3.Not(G[n])) if what != 'is_valid_schema_node_name' and what not in sets else False
      sp.ob(it, 'P24', f'{what}: only unknown names are rejected, with ValueError', ok)
      return
    it.cover(what)
    if what in tests:
      b = it.truth(r)
      b = z3.BoolVal(b) if isinstance(b, bool) else b
      sp.ob(it, 'P24', f'{what}: exact', b == tests[what]())
      return
    F = sets.get(what) or of[what]
    k = it.fresh('k', Val)
    if isinstance(r, OwnedSet):
      mem = r.d.mem[r.key][k]
    else:
      mem = setdom(it, bm.as_set(it, r))[k]
    if what in of:
      sp.ob(it, 'P24', f'{what}: only for nodes', G[n])
    sp.ob(it, 'P24', f'{what}: exact', mem == F(k))
  return harness


PROOFS = {
    'P24': {
        'name': (lambda: NameSpec('P24'), h_name),
        'converse': (lambda: ConverseSpec('P24'), h_converse),
        'accessors': (lambda: HelperSpec('P24'), h_accessors),
    },
    'P25': {
        'path': (lambda: PathSpec('P25'), h_path),
        'bag': (lambda: BagSpec('P25'), h_bag),
        'reach': (lambda: QuerySpec('P25'), h_reach),
        'needed': (lambda: QuerySpec('P25'), h_needed),
        'exists': (lambda: QuerySpec('P25'), h_exists),
        'closure': (lambda: ClosureImage('P25'), closure_harness),
    },
}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h


_T = ['z3, cvc5 and the VC generator pyvc/']
_KD = 'Koda schema items: get_itemid, no_bag, encode_itemid, is_primitive_schema, == (by contract)'
TRUSTED = {
    'P24': _T + [_KD],
    'P25': _T + ['kd.bags.updated, merge_fallbacks, schema_stub, get_bag (opaque)',
                 'action.get_subschema (its errors and results are opaque; P15)'],
}
ASSUMPTIONS = {
    'P24': ['the graph of _analyze_schema itself (breadth-first construction) is decided by the executable contract on '
            'generated schemas only: bounded, not counted as proved',
            'a schema is a struct schema with an item id, a primitive one, or ITEMID, NONE, OBJECT, SCHEMA'],
    'P25': ['the schema graph has the form its constructor gives it (P24: the construction is checked, bounded)',
            'termination of the closure work list is not proved'],
}
