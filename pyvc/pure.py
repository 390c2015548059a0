"""Rules for comprehensions, next(), any/all and sorted over symbolic sources.

A comprehension whose element expression and conditions are *pure* (no writes
to objects that existed before, no fork) is evaluated once at an arbitrary
index; the facts met on the way are generalised over the index (constants
created on the way become functions of it).  The result is then described
exactly, without a loop invariant.  Anything that is not pure falls back to
the loop rule.
"""

import ast
import re

import z3

from pyvc import core
from pyvc.core import *


class NotPure(Exception):
  pass


_NUM = re.compile(r'!(\d+)$')


def _consts(ts, n0, n1):
  """0-ary symbols created in (n0, n1]; raises NotPure on functions created there."""
  out, seen, st = {}, set(), list(ts)
  while st:
    t = st.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if z3.is_quantifier(t):
      st.append(t.body())
      for i in range(t.num_patterns()):
        st.append(t.pattern(i))
      continue
    if z3.is_app(t):
      d = t.decl()
      if d.kind() == z3.Z3_OP_UNINTERPRETED:
        m = _NUM.search(d.name())
        if m and n0 < int(m.group(1)) <= n1:
          if d.arity() == 0:
            out[d.name()] = t
          else:
            raise NotPure('function created inside')
      st.extend(t.children())
  return list(out.values())


class At:
  """Value of a pure evaluation at an arbitrary index."""

  def __init__(self, i, rng, conds, terms, facts, n0, n1):
    self.i = i
    consts = _consts(conds + terms + facts, n0, n1)
    consts = [c for c in consts if not c.eq(i)]
    self.sk = []
    for c in consts:
      f = z3.Function(c.decl().name() + '_of', z3.IntSort(), c.sort())
      self.sk.append((c, f))
    self._c, self._t, self._f, self._r = conds, terms, facts, rng

  def sub(self, t, j):
    return z3.substitute(t, (self.i, j), *[(c, f(j)) for c, f in self.sk])

  def cond(self, j):
    cs = [self.sub(c, j) for c in self._c]
    return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True))

  def term(self, n, j):
    return self.sub(self._t[n], j)

  def facts(self, j):
    return [self.sub(f, j) for f in self._f]


def enabled(it):
  return getattr(it.spec, 'pure_comps', False)


def attempt(it, thunk):
  """Runs thunk in pure mode; records success/failure on the path."""
  if it.pure:
    return thunk()
  if it.pos < len(it.prefix):
    # Replaying: the recorded outcome sits after the sub-run.
    d = it.prefix[it.pos]
    if d == 'impure':
      it.pos += 1
      it.trail.append('impure')
      return UNDEF
  it.pure = True
  it.pure_start = it.tick()
  try:
    r = thunk()
  except (NotPure, PathEnd, PyRaise, Unsupported, ReturnSig, BreakSig, ContinueSig):
    it.pure = False
    if it.pos < len(it.prefix):
      raise Unsupported('a pure comprehension is no longer pure on replay')
    it.pending.append(it.trail + ['impure'])
    raise PathEnd()
  finally:
    it.pure = False
  if it.pos < len(it.prefix):
    if it.prefix[it.pos] != 'pure':
      raise Unsupported('path replay diverged')
    it.pos += 1
    it.trail.append('pure')
  else:
    it.trail.append('pure')
    it.prefix = it.prefix + ['pure']
    it.pos += 1
  return r


def at_index(it, length, ev):
  """ev(i) -> (conds, values); evaluates at a fresh index and generalises."""
  i = it.fresh('pi', z3.IntSort())
  n0 = it.nfresh
  npc = len(it.pc)
  it.inc.push()
  rng = z3.And(0 <= i, i < length)
  it.assume(rng)
  try:
    conds, values = ev(i)
    terms = [reify(it, v) for v in values]
  finally:
    it.inc.pop()
    extra = it.pc[npc + 1:]
    del it.pc[npc:]
    for f in extra:
      if it.is_axiom(f):
        it.assume_q(f)
    extra = [f for f in extra if not it.is_axiom(f)]
  conds = [z3.BoolVal(c) if isinstance(c, bool) else c for c in conds]
  # conditions were assumed while the values were evaluated
  facts = []
  for f in extra:
    if any(f.eq(c) for c in conds):
      continue
    facts.append(f)
  a = At(i, rng, conds, terms, facts, n0, it.nfresh)
  a.ncond = len(conds)
  return a


def reify(it, v):
  r = it.spec.reify(it, v)
  if r is not UNDEF:
    return r
  if isinstance(v, (ListObj, DictObj, SetObj, IterObj, GenVal, GenExp, Bound,
                    Builtin, PartialVal)):
    raise NotPure('element with identity')
  if isinstance(v, Obj):
    raise NotPure('element with identity')
  return it.tv(v)


def pure_truth(it, e, fr):
  """Truth of an expression as a formula; and/or/not/if without forking."""
  if isinstance(e, ast.BoolOp):
    fs, n = [], 0
    conj = isinstance(e.op, ast.And)
    npc = len(it.pc)
    out = []
    pushes = 0
    guards = []
    try:
      for x in e.values:
        t = pure_truth(it, x, fr)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        out.append(t)
        it.inc.push()
        pushes += 1
        g = t if conj else z3.Not(t)
        guards.append((len(it.pc), g))
        it.assume_q(g)
    finally:
      for _ in range(pushes):
        it.inc.pop()
      _relativise(it, npc, guards)
    return z3.And(*out) if conj else z3.Or(*out)
  if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
    t = pure_truth(it, e.operand, fr)
    return (not t) if isinstance(t, bool) else z3.Not(t)
  t = it.truth(it.ev(e, fr))
  return t.t if isinstance(t, SBool) else t


def _relativise(it, npc, guards):
  """Facts assumed after a guard hold under the guards only."""
  pc = it.pc[npc:]
  del it.pc[npc:]
  live = []
  gi = 0
  for idx, f in enumerate(pc):
    if gi < len(guards) and guards[gi][0] == npc + idx and f is guards[gi][1]:
      live.append(f)
      gi += 1
      continue
    g = z3.Implies(z3.And(*live), f) if live and not it.is_axiom(f) else f
    it.pc.append(g)
    it.inc.add(g)


def pure_ite(it, c, ta, tb):
  """Evaluates both branches; returns an If value."""
  npc = len(it.pc)
  res = []
  for g, th in ((c, ta), (z3.Not(c), tb)):
    m = len(it.pc)
    it.inc.push()
    it.assume_q(g)
    try:
      v = th()
    finally:
      it.inc.pop()
      _relativise(it, m, [(m, g)])
    res.append(v)
  a, b = res
  if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
    return SBool(z3.If(c, it.btm(a), it.btm(b)))
  if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
    return SInt(z3.If(c, it.int_t(a), it.int_t(b)))
  if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
    return SStr(z3.If(c, it.str_t(a), it.str_t(b)))
  return SVal(z3.If(c, reify(it, a), reify(it, b)))


def comp_source(it, node, f):
  """Single-generator comprehension over a symbolic source, or None."""
  from pyvc import builtins_model as bm
  if len(node.generators) != 1 or node.generators[0].is_async:
    return None
  g = node.generators[0]
  v = it.ev(g.iter, f.closure or f)
  src = bm.iter_source(it, v)
  return v, src


def _prep(it, node, f, src, elts):
  length, at, _ = src
  g = node.generators[0]
  holder = {}

  def ev(i):
    x = at(i)
    holder['x'] = x
    it.assign(g.target, x, f)
    conds = []
    for c in g.ifs:
      t = pure_truth(it, c, f)
      t = z3.BoolVal(t) if isinstance(t, bool) else t
      conds.append(t)
      it.assume_q(t)
    return conds, [it.ev(e, f) for e in elts]

  a = at_index(it, length, ev)
  pats = source_patterns(it, at)
  return length, a, pats


def source_patterns(it, at):
  """Trigger terms mentioning the source element at index j."""

  def pats(j):
    out = []
    try:
      n = it.nfresh
      x = at(j)
      xs = list(x) if isinstance(x, tuple) else [x]
      while any(isinstance(y, tuple) for y in xs):
        xs = [z for y in xs for z in (y if isinstance(y, tuple) else (y,))]
      for y in xs:
        if isinstance(y, Sym):
          t = y.t
          while z3.is_app(t) and t.num_args() == 1 and (
              t.decl().kind() == z3.Z3_OP_DT_ACCESSOR):
            t = t.arg(0)
          if z3.is_app(t) and t.num_args() >= 1 and t.decl().kind() in (
              z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SEQ_NTH, z3.Z3_OP_SELECT):
            out.append(t)
            break
    except Unsupported:
      pass
    return out

  return pats


def _facts(it, a, length, pats):
  j = z3.Int('j')
  fs = a.facts(j)
  if fs:
    ps = pats(j)
    if seqs.ABS[0] and ps:
      ps = ps + [f(j) for _, f in a.sk]
    it.assume(FA([j], z3.Implies(z3.And(0 <= j, j < length), z3.And(*fs)),
                 patterns=ps))


def comp_list(it, node, f, src):
  length, a, pats = _prep(it, node, f, src, [node.elt])
  _facts(it, a, length, pats)
  j, m, m2 = z3.Ints('j m m2')
  S = it.fresh('lc', SeqVal)
  if not a.ncond:
    it.assume(Length(S) == length)
    it.assume(FA([j], z3.Implies(z3.And(0 <= j, j < length), S[j] == a.term(0, j)),
                 patterns=[S[j]] + pats(j)))
    return S
  it.nfresh += 1
  src_ = z3.Function(f'flt_src!{it.nfresh}', z3.IntSort(), z3.IntSort())
  rank = z3.Function(f'flt_rank!{it.nfresh}', z3.IntSort(), z3.IntSort())
  n = Length(S)
  it.assume(n <= length)
  it.assume(FA([m], z3.Implies(z3.And(0 <= m, m < n), z3.And(
      0 <= src_(m), src_(m) < length, a.cond(src_(m)),
      S[m] == a.term(0, src_(m)), rank(src_(m)) == m)), patterns=[S[m]]))
  it.assume(FA([m, m2], z3.Implies(z3.And(0 <= m, m < m2, m2 < n),
                                   src_(m) < src_(m2)),
               patterns=[z3.MultiPattern(S[m], S[m2])]))
  body = z3.Implies(z3.And(0 <= j, j < length, a.cond(j)), z3.And(
      0 <= rank(j), rank(j) < n, src_(rank(j)) == j, S[rank(j)] == a.term(0, j)))
  it.assume(FA([j], body, patterns=pats(j)))
  return S


def comp_set(it, node, f, src, elt=None):
  length, a, pats = _prep(it, node, f, src, [elt if elt is not None else node.elt])
  _facts(it, a, length, pats)
  return image_set(it, length, a.cond if a.ncond else None,
                   lambda j: a.term(0, j), pats)


def image_set(it, length, cond, term, pats, base=None):
  """{term(j) | j < length, cond(j)} (union base)."""
  j = z3.Int('j')
  k = z3.Const('k', Val)
  s = it.new_set()
  s.items = None
  s.dom = it.fresh('img', z3.ArraySort(Val, z3.BoolSort()))
  s.card = it.fresh('card', z3.IntSort())
  it.nfresh += 1
  ix = z3.Function(f'img_ix!{it.nfresh}', Val, z3.IntSort())
  c = (lambda q: z3.And(0 <= q, q < length, cond(q))) if cond else (
      lambda q: z3.And(0 <= q, q < length))
  inimg = z3.And(c(ix(k)), term(ix(k)) == k)
  it.assume(FA([k], z3.Implies(
      s.dom[k], z3.Or(base[k], inimg) if base is not None else inimg),
               patterns=[s.dom[k]]))
  it.assume(FA([j], z3.Implies(c(j), s.dom[term(j)]), patterns=pats(j) or [term(j)]))
  if base is not None:
    it.assume(FA([k], z3.Implies(base[k], s.dom[k]), patterns=[base[k]]))
  set_facts(it, s)
  if base is None:
    it.assume(s.card <= length)
  return s


def set_facts(it, s):
  """Facts of finite sets."""
  k = z3.Const('k', Val)
  w = it.fresh('wit', Val)
  it.assume(s.card >= 0)
  it.assume(z3.Or(s.card == 0, s.dom[w]))
  it.assume(z3.Implies(s.card == 0, FA([k], z3.Not(s.dom[k]), patterns=[s.dom[k]])))


def card_facts(it, card, dom):
  """|A| and |B| of finite sets: monotone, and equal only if equal."""
  reg = it.ghost.setdefault('cards', [])
  if any(c.eq(card) for c, _ in reg):
    return
  for c2, d2 in reg:
    for (ca, da, cb, db) in ((card, dom, c2, d2), (c2, d2, card, dom)):
      w = it.fresh('notin', Val)
      k = z3.Const('k', Val)
      sub = z3.Not(z3.And(da[w], z3.Not(db[w])))
      # A <= B (no witness) -> |A| <= |B|; and if |A| == |B| then B <= A.
      it.assume(z3.Or(z3.And(da[w], z3.Not(db[w])), z3.And(
          ca <= cb,
          z3.Implies(ca == cb, FA([k], z3.Implies(db[k], da[k]), patterns=[db[k]])))))
  reg.append((card, dom))


def comp_dict(it, node, f, src):
  length, a, pats = _prep(it, node, f, src, [node.key, node.value])
  _facts(it, a, length, pats)
  d = it.new_dict()
  fill_dict(it, d, length, a.cond if a.ncond else None,
            lambda j: a.term(0, j), lambda j: a.term(1, j), pats)
  return d


def fill_dict(it, d, length, cond, key, val, pats):
  it.havoc_dict(d, 'dc')
  j = z3.Int('j')
  k = z3.Const('k', Val)
  it.nfresh += 1
  ix = z3.Function(f'dc_last!{it.nfresh}', Val, z3.IntSort())
  fi = z3.Function(f'dc_first!{it.nfresh}', Val, z3.IntSort())
  c = (lambda q: z3.And(0 <= q, q < length, cond(q))) if cond else (
      lambda q: z3.And(0 <= q, q < length))
  it.assume(FA([k], z3.Implies(d.dom[k], z3.And(
      c(ix(k)), key(ix(k)) == k, d.val[k] == val(ix(k)))), patterns=[d.dom[k]]))
  it.assume(FA([k], z3.Implies(d.dom[k], z3.And(
      c(fi(k)), key(fi(k)) == k, d.ord[k] == fi(k), fi(k) <= ix(k))),
               patterns=[d.ord[k]]))
  it.assume(FA([j], z3.Implies(c(j), z3.And(
      d.dom[key(j)], j <= ix(key(j)), fi(key(j)) <= j)),
               patterns=pats(j) or [key(j)]))
  it.assume(d.nxt == length)
  it.assume(d.card <= length)
  d.wrote = True


def first_match(it, node, f, src, default, has_default):
  """next(<elt> for <target> in <src> if <conds>)."""
  length, at, _ = src
  g = node.generators[0]

  def ev(i):
    it.assign(g.target, at(i), f)
    conds = []
    for c in g.ifs:
      t = pure_truth(it, c, f)
      conds.append(z3.BoolVal(t) if isinstance(t, bool) else t)
    return conds, []

  def run():
    a = at_index(it, length, ev)
    pats = source_patterns(it, at)
    _facts(it, a, length, pats)
    return a, pats

  r = attempt(it, run)
  if r is UNDEF:
    raise Unsupported('next() over an impure generator')
  a, pats = r
  j = z3.Int('j')
  none = lambda n: FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(a.cond(j))),
                      patterns=pats(j))
  k = it.fresh('first', z3.IntSort())
  hit = z3.And(0 <= k, k < length, a.cond(k), none(k))
  # Exactly one of: k is the first match; there is no match.
  if it.pure:
    st = it.entails(z3.Not(none(length)), 3000, True)
    if st != 'unsat':
      raise NotPure('next() may fail')
    it.assume(hit)
  else:
    miss = it.fresh('miss', z3.BoolSort())
    it.assume(z3.Implies(miss, none(length)))
    it.assume(z3.Implies(z3.Not(miss), hit))
    if it.branch(miss):
      if it.entails(z3.BoolVal(False), 3000, True) == 'unsat':
        raise PathEnd()
      if has_default:
        return default
      it.throw(StopIteration)
  it.assign(g.target, at(k), f)
  return it.ev(node.elt, f)


def sort_source(it, src, keyfn, reverse=False):
  """sorted(src, key=keyfn) for a pure key; returns the sequence term."""
  length, at, _ = src

  def run():
    def ev(i):
      x = at(i)
      kv = it.call(keyfn, [x], {}) if keyfn is not None else x
      return [], [x, kv]
    a = at_index(it, length, ev)
    pats = source_patterns(it, at)
    _facts(it, a, length, pats)
    return a, pats

  r = attempt(it, run)
  if r is UNDEF:
    raise Unsupported('sorted() with an impure key')
  a, pats = r
  j, m, m2 = z3.Ints('j m m2')
  S = it.fresh('sorted', SeqVal)
  it.nfresh += 1
  pi = z3.Function(f'sort_pi!{it.nfresh}', z3.IntSort(), z3.IntSort())
  inv = z3.Function(f'sort_inv!{it.nfresh}', z3.IntSort(), z3.IntSort())
  it.assume(Length(S) == length)
  it.assume(FA([m], z3.Implies(z3.And(0 <= m, m < length), z3.And(
      0 <= pi(m), pi(m) < length, inv(pi(m)) == m, S[m] == a.term(0, pi(m)))),
               patterns=[S[m]]))
  it.assume(FA([j], z3.Implies(z3.And(0 <= j, j < length), z3.And(
      0 <= inv(j), inv(j) < length, pi(inv(j)) == j, S[inv(j)] == a.term(0, j))),
               patterns=pats(j)))
  key = lambda q: a.term(1, pi(q))
  lt = (lambda x, y: x > y) if reverse else (lambda x, y: x < y)
  ints = it.entails(z3.Implies(z3.And(0 <= a.i, a.i < length), Val.is_int(
      a._t[1])), 2000, True)
  t1 = z3.simplify(a._t[1])
  isint = z3.is_app(t1) and t1.decl().name() == 'int' or ints == 'unsat'
  if not isint:
    f0 = FA([j], z3.Implies(z3.And(0 <= j, j < length), Val.is_int(a.term(1, j))),
            patterns=pats(j))
    isint = it.entails(f0, 3000, True) == 'unsat'
  if isint:
    it.assume(FA([m, m2], z3.Implies(z3.And(0 <= m, m < m2, m2 < length), z3.Or(
        lt(Val.i(key(m)), Val.i(key(m2))),
        z3.And(Val.i(key(m)) == Val.i(key(m2)), pi(m) < pi(m2)))),
                 patterns=[z3.MultiPattern(pi(m), pi(m2))]))
  return S
