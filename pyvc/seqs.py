"""Sequences of values: native z3 sequences, or (ABS) uninterpreted functions
with axioms, which is what E-matching needs.

Replacing an interpreted operation by an uninterpreted one with valid axioms is
sound for proving; a model found this way is not trusted (the verdict is
`undecided`, never `refuted`).
"""

import z3

ABS = [False]


class _S:
  pass


_F = _S()


def init(SeqVal, Val):
  _F.sort = SeqVal
  _F.val = Val
  I = z3.IntSort()
  _F.at = z3.Function('seq_at', SeqVal, I, Val)
  _F.len = z3.Function('seq_len', SeqVal, I)
  _F.cat = z3.Function('seq_cat', SeqVal, SeqVal, SeqVal)
  _F.sub = z3.Function('seq_sub', SeqVal, I, I, SeqVal)
  _F.has = z3.Function('seq_has', SeqVal, Val, z3.BoolSort())
  _F.ix = z3.Function('seq_index', SeqVal, Val, I)
  _F.empty = z3.Const('seq_empty', SeqVal)
  _F.n = {}
  orig = z3.SeqRef.__getitem__

  def getitem(self, i):
    if ABS[0] and self.sort() == SeqVal:
      if isinstance(i, int):
        i = z3.IntVal(i)
      return _F.at(self, i)
    return orig(self, i)

  z3.SeqRef.__getitem__ = getitem


def Length(x):
  if ABS[0] and x.sort() == _F.sort:
    return _F.len(x)
  return z3.Length(x)


def _disp(k):
  f = _F.n.get(k)
  if f is None:
    f = _F.n[k] = z3.Function(f'seq_of_{k}', *[_F.val] * k, _F.sort)
  return f


def seq_of_terms(ts):
  if not ts:
    return _F.empty if ABS[0] else z3.Empty(_F.sort)
  if ABS[0]:
    return _disp(len(ts))(*ts)
  us = [z3.Unit(t) for t in ts]
  return us[0] if len(us) == 1 else z3.Concat(*us)


def terms_of(s):
  """The elements of a display, or None."""
  if ABS[0]:
    if s.eq(_F.empty):
      return []
    if z3.is_app(s) and s.decl().name().startswith('seq_of_'):
      return s.children()
    return None
  return None


def cat(*ss):
  if not ABS[0]:
    return z3.Concat(*ss) if len(ss) > 1 else ss[0]
  r = ss[0]
  for s in ss[1:]:
    if r.eq(_F.empty):
      r = s
    elif not s.eq(_F.empty):
      a, b = terms_of(r), terms_of(s)
      r = seq_of_terms(a + b) if a is not None and b is not None else _F.cat(r, s)
  return r


def sub(s, lo, n):
  return _F.sub(s, lo, n) if ABS[0] else z3.SubSeq(s, lo, n)


def has(s, x):
  return _F.has(s, x) if ABS[0] else z3.Contains(s, z3.Unit(x))


def axioms():
  """Valid in the intended meaning of the functions."""
  a, b = z3.Consts('sa sb', _F.sort)
  i, lo, n = z3.Ints('si slo sn')
  x = z3.Const('sx', _F.val)
  L, at = _F.len, _F.at
  FA = lambda vs, f, ps: z3.ForAll(vs, f, patterns=ps)
  out = [L(_F.empty) == 0, FA([a], L(a) >= 0, [L(a)])]
  c = _F.cat(a, b)
  out.append(FA([a, b], L(c) == L(a) + L(b), [c]))
  out.append(FA([a, b, i], z3.Implies(z3.And(0 <= i, i < L(a)), at(c, i) == at(a, i)), [at(c, i)]))
  out.append(FA([a, b, i], z3.Implies(z3.And(L(a) <= i, i < L(a) + L(b)),
                                      at(c, i) == at(b, i - L(a))), [at(c, i)]))
  out.append(FA([a, b, i], z3.Implies(z3.And(0 <= i, i < L(a)), at(c, i) == at(a, i)),
                [z3.MultiPattern(c, at(a, i))]))
  out.append(FA([a, b, i], z3.Implies(z3.And(0 <= i, i < L(b)), at(c, L(a) + i) == at(b, i)),
                [z3.MultiPattern(c, at(b, i))]))
  s = _F.sub(a, lo, n)
  ok = z3.And(0 <= lo, 0 <= n, lo + n <= L(a))
  out.append(FA([a, lo, n], z3.Implies(ok, L(s) == n), [s]))
  out.append(FA([a, lo, n, i], z3.Implies(z3.And(ok, 0 <= i, i < n), at(s, i) == at(a, lo + i)),
                [at(s, i)]))
  out.append(FA([a, lo, n, i], z3.Implies(
      z3.And(ok, lo <= i, i < lo + n), at(s, i - lo) == at(a, i)), [z3.MultiPattern(s, at(a, i))]))
  h = _F.has(a, x)
  ix = _F.ix(a, x)
  out.append(FA([a, x], z3.Implies(h, z3.And(0 <= ix, ix < L(a), at(a, ix) == x)), [h]))
  out.append(FA([a, x, i], z3.Implies(z3.And(0 <= i, i < L(a), at(a, i) == x), h),
                [z3.MultiPattern(h, at(a, i))]))
  for k in range(1, 5):
    xs = [z3.Const(f'sx{m}', _F.val) for m in range(k)]
    t = _disp(k)(*xs)
    out.append(FA(xs, z3.And(L(t) == k, *[at(t, z3.IntVal(m)) == xs[m] for m in range(k)]), [t]))
  return out
