"""Contracts for koladata.ext.storage.data_slice_path (P15).

The documented grammar is a relation Spelled(kind, name, text).  Proved:
  spell     str(action) is a spelling of the action;
  prefix    each prefix parser is sound for every string and complete on every
            spelling followed by the end or another spelling;
  parse     parse_from_string, over the contracts of the prefix parsers: it
            terminates, raises only ValueError, what it accepts spells the
            result, and every concatenation of spellings is read back;
  to_string the text of a path is the concatenation of the texts of its actions;
  actions   evaluate/get_subschema of each action; evaluate, concat, depth,
            extended_with_action of paths of any length.
"""

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm
from pyvc import seqs
from pyvc.seqs import Length

MOD = 'koladata.ext.storage.data_slice_path'
S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()

KEYS, VALUES, LIST, ATTR = range(4)
CLASSES = {'DictGetKeys': KEYS, 'DictGetValues': VALUES, 'ListExplode': LIST, 'GetAttr': ATTR}
TEXT = {KEYS: '.get_keys()', VALUES: '.get_values()', LIST: '[:]'}

Kind = z3.Function('action_kind', Val, I)
Name = z3.Function('action_name', Val, S)

# kd.strings: text <-> bytes (utf-8) <-> base64 text.
Enc = z3.Function('utf8_encode', S, I)
Utf8Ok = z3.Function('utf8_valid', I, B)
Utf8 = z3.Function('utf8_decode', I, S)
B64 = z3.Function('b64_encode', I, S)
B64Ok = z3.Function('b64_valid', S, B)
B64D = z3.Function('b64_decode', S, I)

TRUSTED = {'P15': [
    'kd.strings.encode/decode and encode_base64/decode_base64 are inverse, base64 text contains no quotes, invalid input raises ValueError',
    'str.isidentifier: an identifier is not empty and contains none of . [ ] ( ) : and quotes',
    'DataSlice methods (get_keys, get_values, explode, get_attr, schema tests) are opaque',
    'z3, cvc5 and the VC generator pyvc/']}
ASSUMPTIONS = {'P15': ['attribute names are valid Unicode text', 'actions are the four action classes of the module']}


def sv(x):
  return z3.StringVal(x)


def DecOk(b):
  return z3.And(B64Ok(b), Utf8Ok(B64D(b)))


def Dec(b):
  return Utf8(B64D(b))


def quoted(q, b):
  return z3.Concat(sv('.get_attr(' + q), b, sv(q + ')'))


def spelled(kind, name, text, body):
  """text spells the action; body is the quoted part, if any."""
  return z3.Or(
      *[z3.And(kind == k, text == sv(t)) for k, t in TEXT.items()],
      z3.And(kind == ATTR, z3.Or(
          z3.And(bm.IsIdent(name), text == z3.Concat(sv('.'), name)),
          *[z3.And(text == quoted(q, body), z3.Not(z3.Contains(body, sv(q))), DecOk(body), Dec(body) == name)
            for q in ('"', "'")])))


def tail_ok(rest):
  """The end of the path, or the start of another action."""
  return z3.Or(rest == sv(''), z3.PrefixOf(sv('.'), rest), z3.PrefixOf(sv('[:]'), rest))


class PathSpec(Spec):

  cvc5_first = True

  def __init__(self):
    super().__init__()
    self.externals |= {'koladata.kd', 'koladata.ext.storage.stubs_and_minimal_bags_lib'}
    ks = 'koladata.kd.strings.'
    self.models[ks + 'encode'] = Builtin('kd.strings.encode', self.m_encode)
    self.models[ks + 'decode'] = Builtin('kd.strings.decode', self.m_decode)
    self.models[ks + 'encode_base64'] = Builtin('kd.strings.encode_base64', self.m_b64)
    self.models[ks + 'decode_base64'] = Builtin('kd.strings.decode_base64', self.m_b64d)

  # -- kd.strings --
  def item(self, it, kind, t):
    o = it.new_obj(ExtRef('kd.item'))
    o.kd = (kind, t)
    return o

  def arg(self, it, v, kind):
    if kind == 'text' and isinstance(v, (str, SStr)):
      return it.str_t(v)
    if isinstance(v, Obj) and getattr(v, 'kd', (None,))[0] == kind:
      return v.kd[1]
    raise Unsupported(f'kd.strings on {v!r}')

  def m_encode(self, it, a, k):
    t = self.arg(it, a[0], 'text')
    it.assume(z3.And(Utf8Ok(Enc(t)), Utf8(Enc(t)) == t))
    return self.item(it, 'bytes', Enc(t))

  def m_decode(self, it, a, k):
    t = self.arg(it, a[0], 'bytes')
    if not it.branch(Utf8Ok(t)):
      it.throw(ValueError)
    return self.item(it, 'text', Utf8(t))

  def m_b64(self, it, a, k):
    t = self.arg(it, a[0], 'bytes')
    b = B64(t)
    it.assume(z3.And(B64Ok(b), B64D(b) == t, z3.Not(z3.Contains(b, sv('"'))), z3.Not(z3.Contains(b, sv("'")))))
    return self.item(it, 'text', b)

  def m_b64d(self, it, a, k):
    t = self.arg(it, a[0], 'text')
    it.ghost['decoded'] = t
    if not it.branch(B64Ok(t)):
      it.throw(ValueError)
    return self.item(it, 'bytes', B64D(t))

  def obj_attr(self, it, o, name):
    if getattr(o, 'kd', None) and name == 'to_py':
      kind, t = o.kd
      if kind != 'text':
        raise Unsupported('to_py of bytes')
      return Builtin('to_py', lambda it_, a, k: bm.wrap_str(t))
    return UNDEF

  # -- actions --
  def frozen_hook(self, it, o):
    k = CLASSES.get(getattr(o.cls, 'name', None))
    if k is not None:
      t = it.tv(o)
      it.assume(Kind(t) == k)
      if k == ATTR:
        vs = list(o.fields.values())
        if len(vs) == 1 and isinstance(vs[0], (str, SStr)):
          it.assume(Name(t) == it.str_t(vs[0]))

  def is_action(self, it, v, k, n=None):
    """v is an action of kind k (with that name)."""
    if not isinstance(v, Obj) or getattr(v.cls, 'name', None) not in CLASSES:
      return False
    t = it.tv(v)
    return z3.And(Kind(t) == k, Name(t) == n) if k == ATTR else Kind(t) == k


def make_action(it, k, name=None):
  m = it.prog.module(MOD)
  cls = [c for c, kk in CLASSES.items() if kk == k][0]
  return it.instantiate(it.modname(m, cls), [SStr(name)] if k == ATTR else [], {})


def h_spell(sp):
  def harness(it):
    n = z3.String('name')
    for k in range(4):
      if k == 3 or it.option(f'k{k}'):
        break
    o = make_action(it, k, n)
    exc = r = None
    try:
      r = bm.call_type(it, str, [o], {})
    except PyRaise as e:
      exc = e.exc
    it.cover(f'kind {k}')
    it.oblige('P15: printing an action never fails', exc is None)
    if exc is not None:
      return
    t = it.str_t(r)
    it.assume(bm.ident_facts(n))
    it.oblige('P15: str(action) is a spelling of the action', spelled(z3.IntVal(k), n, t, B64(Enc(n)) if k == ATTR else sv('')))
  return harness


def method(it, k):
  m = it.prog.module(MOD)
  cls = it.modname(m, [c for c, kk in CLASSES.items() if kk == k][0])
  return it.getattr(cls, 'parse_from_data_slice_path_prefix')


def err(it):
  return it.modname(it.prog.module(MOD), 'ActionParsingError')


def split_result(it, r):
  if isinstance(r, tuple) and len(r) == 2:
    return r
  raise Unsupported(f'result of a prefix parser: {r!r}')


def h_sound(k):
  def mk(sp):
    def harness(it):
      s = z3.String('s0')
      it.assume(Length(s) > 0)
      exc = r = None
      try:
        r = it.call(method(it, k), [SStr(s)], {})
      except PyRaise as e:
        exc = e.exc
      it.cover('sound')
      if exc is not None:
        it.oblige('P15: a prefix parser fails only with ActionParsingError', it.exc_matches(exc, err(it)))
        return
      if r is None:
        return
      a, rest = split_result(it, r)
      rt = it.str_t(rest)
      q = it.fresh('consumed', S)
      it.oblige('P15: the remainder is a proper suffix of the text', z3.And(z3.SuffixOf(rt, s), Length(rt) < Length(s)))
      it.assume(s == z3.Concat(q, rt))
      it.oblige('P15: the parser of a class returns actions of that class', sp.is_action(it, a, k, Name(it.tv(a))))
      b = it.ghost.get('decoded', sv(''))
      it.assume(bm.ident_facts(Name(it.tv(a))))
      it.oblige('P15: what is consumed spells the action', spelled(z3.IntVal(k), Name(it.tv(a)), q, b))
    return harness
  return mk


def spelling(it):
  """An arbitrary spelling: (kind, name, text)."""
  n = z3.String('n')
  for k in range(4):
    if k == 3 or it.option(f'spelled{k}'):
      break
  if k != ATTR:
    return k, n, sv(TEXT[k])
  if it.option('dot'):
    it.assume(z3.And(bm.IsIdent(n), bm.ident_facts(n)))
    return k, n, z3.Concat(sv('.'), n)
  q = '"' if it.option('double') else "'"
  b = z3.String('b0')
  it.assume(z3.And(z3.Not(z3.Contains(b, sv(q))), DecOk(b), Dec(b) == n))
  return k, n, quoted(q, b)


def h_complete(k):
  def mk(sp):
    def harness(it):
      k2, n, q = spelling(it)
      if k == ATTR and k2 != ATTR:
        return  # tried last only
      r0 = z3.String('r0')
      if it.option('end'):
        rest = sv('')
      elif it.option('dot follows'):
        rest = z3.Concat(sv('.'), r0)
      else:
        rest = z3.Concat(sv('[:]'), r0)
      s = z3.Concat(q, rest)
      exc = r = None
      try:
        r = it.call(method(it, k), [bm.wrap_str(s)], {})
      except PyRaise as e:
        exc = e.exc
      it.cover('complete')
      it.oblige('P15: a spelled action is not rejected', exc is None)
      if exc is not None:
        return
      if k2 != k:
        it.oblige('P15: the parser of another class does not apply', r is None)
        return
      it.oblige('P15: the parser of the class applies', r is not None)
      if r is None:
        return
      a, got = split_result(it, r)
      it.oblige('P15: a spelled action is read back', sp.is_action(it, a, k, n))
      it.oblige('P15: exactly the spelling is consumed', it.str_t(got) == rest)
    return harness
  return mk


def h_lemma(sp):
  """What the proofs of parsing use about spellings."""
  def harness(it):
    k, n, q = spelling(it)
    r = z3.String('r0')
    it.cover('spelling')
    it.oblige('P15: lemma: a spelling is not empty', Length(q) > 0)
    it.oblige('P15: lemma: a spelling followed by anything starts like an action', tail_ok(z3.Concat(q, r)))
  return harness


# ----------------------------------------------------------------- parsing --

Rem = z3.Function('remains', SeqVal, S, B)  # after these actions, this text is left
AK = z3.Function('given_kind', I, I)
AN = z3.Function('given_name', I, S)
AT = z3.Function('given_text', I, S)
AB = z3.Function('given_body', I, S)
Suf = z3.Function('given_suffix', I, S)


def given(j, n):
  """Definition of the given sequence of spelled actions at index j."""
  return z3.And(
      z3.Implies(z3.And(0 <= j, j < n), z3.And(
          0 <= AK(j), AK(j) <= 3, spelled(AK(j), AN(j), AT(j), AB(j)),
          Suf(j) == z3.Concat(AT(j), Suf(j + 1)), bm.ident_facts(AN(j)), Length(AT(j)) > 0)),
      z3.Implies(j == n, Suf(j) == sv('')))


class ParseSpec(PathSpec):

  def __init__(self, roundtrip):
    super().__init__()
    self.roundtrip = roundtrip
    self.N = z3.Int('N')
    self.idx = []
    for c, k in CLASSES.items():
      self.contracts[(MOD, f'{c}.parse_from_data_slice_path_prefix')] = self.c_prefix(k)

  def opaque_attr(self, it, v, name, default):
    if name == 'debug_string':
      return Builtin('debug_string', lambda it_, a, k: SStr(it.fresh('dbg', S)))
    return UNDEF

  def c_prefix(self, k):
    def handler(it, fn, args, kwargs):
      d = args[-1] if args else list(kwargs.values())[-1]
      dt = it.str_t(d)
      forced = None
      if self.roundtrip:
        for j in it.ghost.get('idx', []):
          it.assume(given(j, self.N))
          it.assume(given(j + 1, self.N))
          it.assume(z3.Implies(z3.And(0 <= j, j < self.N), tail_ok(Suf(j + 1))))
          here = z3.And(0 <= j, j < self.N, dt == Suf(j))
          if it.entails(here, 3000) == 'unsat':
            forced = j
            break
      if forced is not None and not (k == ATTR):
        if not it.branch(AK(forced) == k):
          return None
        rest = Suf(forced + 1)
        return (make_action(it, k), SStr(rest))
      if forced is not None and it.branch(AK(forced) == ATTR):
        return (make_action(it, k, AN(forced)), SStr(Suf(forced + 1)))
      if it.choose(f'applies{k}'):
        q, b, n = it.fresh('text', S), it.fresh('body', S), it.fresh('name', S)
        rest = it.fresh('rest', S)
        it.assume(z3.And(dt == z3.Concat(q, rest), spelled(z3.IntVal(k), n, q, b), Length(q) > 0))
        o = make_action(it, k, n)
        for s in self.lists(it):
          it.assume(z3.Implies(Rem(s, dt), Rem(z3.Concat(s, z3.Unit(it.tv(o))), rest)))
        return (o, SStr(rest))
      if k == ATTR and it.choose('malformed'):
        it.throw(err(it))
      return None
    return handler

  def lists(self, it):
    out = []
    for f in it.ghost.get('frames', []):
      for n, v in sorted(f.locals.items()):
        if isinstance(v, ListObj):
          out.append(it.seq_term(v))
    return out

  def loop_invariants(self, it, L):
    if L.kind != 'while':
      return []
    it.ghost['frames'] = [L.frame]
    strs, lsts = [], []
    for n, v in sorted(L.frame.locals.items()):
      if isinstance(v, (str, SStr)):
        strs.append((n, it.str_t(v)))
      if isinstance(v, ListObj):
        lsts.append((n, it.seq_term(v)))
    out = []
    it.ghost['idx'] = []
    j = z3.Int('j')
    for ln, l in lsts:
      n = Length(l)
      if self.roundtrip:
        it.ghost['idx'].append(n)
        it.assume(given(n, self.N))
        out.append((f'{ln}: at most the given actions', z3.And(0 <= n, n <= self.N)))
        out.append((f'{ln}: the given actions so far', FA([j], z3.Implies(
            z3.And(0 <= j, j < n), z3.And(Kind(l[j]) == AK(j), z3.Implies(AK(j) == ATTR, Name(l[j]) == AN(j)))))))
      for sn, s in strs:
        if self.roundtrip:
          out.append((f'{sn} is what is left after {ln}', s == Suf(n)))
        else:
          out.append((f'{sn} is what is left after {ln}', Rem(l, s)))
    return out

  def variant(self, it, L):
    # The text left: the only string the loop changes.
    best = None
    for n, v in sorted(L.frame.locals.items()):
      if isinstance(v, SStr) and '!' in str(v.t):
        best = Length(v.t)
    return best


def h_parse(sp):
  def harness(it):
    m = it.prog.module(MOD)
    cls = it.modname(m, 'DataSlicePath')
    if sp.roundtrip:
      it.assume(sp.N >= 0)
      s = Suf(z3.IntVal(0))
      it.assume(given(z3.IntVal(0), sp.N))
    else:
      s = z3.String('s0')
      it.assume(Rem(z3.Empty(SeqVal), s))
    exc = r = None
    try:
      r = it.call(it.getattr(cls, 'parse_from_string'), [SStr(s)], {})
    except PyRaise as e:
      exc = e.exc
    it.cover('parsed' if exc is None else 'rejected')
    if sp.roundtrip:
      it.oblige('P15: the text of a path is accepted', exc is None)
    elif exc is not None:
      it.oblige('P15: a malformed text raises ValueError', it.exc_matches(exc, ValueError))
    if exc is not None:
      return
    t = it.getattr(r, 'actions')
    seq = it.seq_term(t)
    if not sp.roundtrip:
      it.oblige('P15: what is accepted spells the resulting path', Rem(seq, sv('')))
      return
    it.assume(given(Length(seq), sp.N))
    it.oblige('P15: the path read back has as many actions', Length(seq) == sp.N)
    j = z3.Int('j0')
    it.oblige('P15: the path read back has the same actions, in order', z3.Implies(
        z3.And(0 <= j, j < sp.N), z3.And(Kind(seq[j]) == AK(j), z3.Implies(AK(j) == ATTR, Name(seq[j]) == AN(j)))))
  return harness


# -------------------------------------------------- paths of any length --

Txt = z3.Function('text_of_action', Val, S)
Ev = z3.Function('evaluate_action', Val, Val, Val)
Fails = z3.Function('evaluate_fails', Val, Val, B)


class ManySpec(PathSpec):
  """DataSlicePath over an arbitrary tuple of opaque actions."""

  def __init__(self):
    super().__init__()
    self.A = z3.Const('actions', SeqVal)
    self.J = z3.Function('joined_from', I, S)
    self.F = z3.Function('evaluated', I, Val)
    self.x = z3.Const('x', Val)

  def path(self, it, seq):
    m = it.prog.module(MOD)
    return it.instantiate(it.modname(m, 'DataSlicePath'), [STup(seq)], {})

  def at_index(self, it, j):
    """Definitions at index j."""
    n = Length(self.A)
    it.assume(z3.Implies(z3.And(0 <= j, j < n), z3.And(
        Val.is_ref(self.A[j]),
        self.J(j) == z3.Concat(Txt(self.A[j]), self.J(j + 1)),
        self.F(j + 1) == Ev(self.A[j], self.F(j)))))
    it.assume(z3.Implies(j == n, self.J(j) == sv('')))
    it.assume(self.F(z3.IntVal(0)) == self.x)

  def opaque_attr(self, it, v, name, default):
    if name == '__str__':
      return Builtin('action.__str__', lambda it_, a, k: SStr(Txt(v.t)))
    if name == 'evaluate':
      def ev(it_, a, k):
        x = it.tv(a[0])
        if it.branch(Fails(v.t, x)):
          it.throw(ValueError)
        return SVal(Ev(v.t, x))
      return Builtin('action.evaluate', ev)
    return UNDEF

  def call_type(self, it, t, a, k):
    if t is str and len(a) == 1 and isinstance(a[0], SVal):
      return SStr(Txt(a[0].t))
    return UNDEF

  def loop_invariants(self, it, L):
    if L.kind != 'for':
      return []
    self.at_index(it, L.i)
    if z3.is_app(L.i) and L.i.decl().kind() == z3.Z3_OP_ADD:
      self.at_index(it, L.i - 1)
    out = []
    if L.acc is not None and isinstance(L.acc, ListObj):
      s = it.seq_term(L.acc)
      j = z3.Int('j')
      out.append(('as many texts as actions seen', Length(s) == L.i))
      out.append(('texts of the actions seen', FA([j], z3.Implies(
          z3.And(0 <= j, j < L.i), s[j] == Val.str(Txt(self.A[j]))))))
    for n, v in sorted(L.frame.locals.items()):
      if isinstance(v, (str, SStr)):
        out.append((f'{n}: text of the actions seen', z3.Concat(it.str_t(v), self.J(L.i)) == self.J(z3.IntVal(0))))
      if isinstance(v, SVal):
        out.append((f'{n}: evaluated so far', v.t == self.F(L.i)))
    return out

  def sym_join(self, it, sep, items):
    """''.join(texts) where the texts are those of the actions of the path."""
    s = items.t
    j = z3.Int('jj')
    if sep == '' and it.entails(z3.And(Length(s) == Length(self.A), z3.Implies(
        z3.And(0 <= j, j < Length(s)), s[j] == Val.str(Txt(self.A[j])))), 5000) == 'unsat':
      return SStr(self.J(z3.IntVal(0)))
    return UNDEF


def h_text(sp):
  def harness(it):
    sp.at_index(it, z3.IntVal(0))
    p = sp.path(it, sp.A)
    r = it.call(it.getattr(p, 'to_string'), [], {}) if it.option('to_string') else bm.call_type(it, str, [p], {})
    it.cover('text')
    it.oblige('P15: the text of a path is the concatenated text of its actions, in order',
              isinstance(r, (str, SStr)) and it.str_t(r) == sp.J(z3.IntVal(0)))
  return harness


def h_eval(sp):
  def harness(it):
    sp.at_index(it, z3.IntVal(0))
    p = sp.path(it, sp.A)
    n = Length(sp.A)
    exc = r = None
    try:
      r = it.call(it.getattr(p, 'evaluate'), [SVal(sp.x)], {})
    except PyRaise as e:
      exc = e.exc
    it.cover('evaluated' if exc is None else 'fails')
    if exc is not None:
      it.oblige('P15: evaluation fails only where an action fails', it.exc_matches(exc, ValueError))
      return
    it.oblige('P15: evaluating a path applies its actions in order', it.tv(r) == sp.F(n))
  return harness


def h_build(sp):
  def harness(it):
    bq = z3.Const('other', SeqVal)
    p, q = sp.path(it, sp.A), sp.path(it, bq)
    c = it.call(it.getattr(p, 'concat'), [q], {})
    it.cover('concat')
    it.oblige('P15: concat appends the actions of the other path',
              it.seq_term(it.getattr(c, 'actions')) == z3.Concat(sp.A, bq))
    a = SVal(z3.Const('a', Val))
    e = it.call(it.getattr(p, 'extended_with_action'), [a], {})
    it.oblige('P15: extended_with_action appends the action',
              it.seq_term(it.getattr(e, 'actions')) == z3.Concat(sp.A, z3.Unit(a.t)))
    d = it.getattr(p, 'depth')
    it.oblige('P15: depth is the number of actions', it.int_t(d) == Length(sp.A))
    m = it.prog.module(MOD)
    f = it.call(it.getattr(it.modname(m, 'DataSlicePath'), 'from_actions'), [it.new_list_sym(sp.A)], {})
    it.oblige('P15: from_actions keeps the actions', it.seq_term(it.getattr(f, 'actions')) == sp.A)
    it.oblige('P15: the operands are unchanged', z3.And(
        it.seq_term(it.getattr(p, 'actions')) == sp.A, it.seq_term(it.getattr(q, 'actions')) == bq))
  return harness


# ------------------------------------------------------ single actions --


class OneSpec(PathSpec):

  def opaque_attr(self, it, v, name, default):
    if name.startswith('is_') and name.endswith('_schema'):
      f = z3.Function('sl_' + name, Val, B)
      return Builtin(name, lambda it_, a, k: SBool(f(v.t)))
    if name.startswith('get_') or name == 'explode':
      def call(it_, a, k):
        self.calls.append((name, v.t, list(a), dict(k)))
        r = it.fresh('r_' + name, Val)
        self.results.append(r)
        return SVal(r)
      return Builtin(name, call)
    return UNDEF

  def model(self, it, dotted):
    if dotted == 'koladata.kd.has_attr':
      f = z3.Function('sl_has_attr', Val, S, B)
      return Builtin('kd.has_attr', lambda it_, a, k: SBool(f(it.tv(a[0]), it.str_t(a[1]))))
    if dotted == 'koladata.kd.any':
      return Builtin('kd.any', lambda it_, a, k: a[0])
    return super().model(it, dotted)


EVAL = {KEYS: 'get_keys', VALUES: 'get_values', LIST: 'explode', ATTR: 'get_attr'}
SUB = {KEYS: ('is_dict_schema', 'get_key_schema'), VALUES: ('is_dict_schema', 'get_value_schema'),
       LIST: ('is_list_schema', 'get_item_schema'), ATTR: ('is_entity_schema', 'get_attr')}


def h_one(sp):
  def harness(it):
    sp.calls, sp.results = [], []
    n = z3.String('name')
    for k in range(4):
      if k == 3 or it.option(f'k{k}'):
        break
    o = make_action(it, k, n)
    x = z3.Const('x', Val)
    it.assume(Val.is_ref(x))
    want_args = [n] if k == ATTR else []

    def one(what):
      return (len(sp.calls) == 1 and sp.calls[0][0] == what and sp.calls[0][1].eq(x)
              and len(sp.calls[0][2]) == len(want_args) and not sp.calls[0][3])

    if it.option('evaluate'):
      r = it.call(it.getattr(o, 'evaluate'), [SVal(x)], {})
      it.cover('evaluate')
      it.oblige('P15: evaluating an action calls the operation it names, once', one(EVAL[k]))
      it.oblige('P15: ... on the attribute it names', it.conj([it.eq(a, SStr(b)) for a, b in zip(sp.calls[0][2], want_args)]))
      it.oblige('P15: ... and returns its result', it.tv(r) == sp.results[0])
      return
    isk, get = SUB[k]
    ok = z3.Function('sl_' + isk, Val, B)(x)
    if k == ATTR:
      ok = z3.And(ok, z3.Function('sl_has_attr', Val, S, B)(x, n))
    exc = r = None
    try:
      r = it.call(it.getattr(o, 'get_subschema'), [SVal(x)], {})
    except PyRaise as e:
      exc = e.exc
    it.cover('subschema')
    it.oblige('P15: the subschema exists exactly for schemas of the right kind', (exc is None) == ok)
    if exc is not None:
      it.oblige('P15: other schemas are rejected as incompatible', it.exc_matches(
          exc, it.modname(it.prog.module(MOD), 'IncompatibleSchemaError')))
      return
    it.oblige('P15: the subschema is the one of the action', one(get))
    it.oblige('P15: ... and is returned', it.tv(r) == sp.results[0])
  return harness


PROOFS = {'P15': {
    'lemmas': (PathSpec, h_lemma),
    'spell': (PathSpec, h_spell),
    **{f'prefix sound {c}': (PathSpec, h_sound(k)) for c, k in CLASSES.items()},
    **{f'prefix complete {c}': (PathSpec, h_complete(k)) for c, k in CLASSES.items()},
    'parse sound': (lambda: ParseSpec(False), h_parse),
    'parse complete': (lambda: ParseSpec(True), h_parse),
    'to_string': (ManySpec, h_text),
    'evaluate': (ManySpec, h_eval),
    'building': (ManySpec, h_build),
    'actions': (OneSpec, h_one),
}}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h
