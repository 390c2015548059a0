"""Ghost file system with interference, and the string templates of file names.

The file system is a ghost array path -> content (NONE = absent).  Before every
operation the other processes may take any number of steps (`env`): they never
touch paths carrying one of *our* fresh uuids, and never change or remove
committed files (final metadata files and bag files that committed metadata
refers to).  Every operation of ours may fail with an OSError, and is checked
against the guarantee: what we create or remove carries our own fresh uuid and
is not a committed name; a commit is one rename with overwrite=False.

File names are built by the code from constant text, zero-padded numbers and
uuids.  The text is taken from the source on every run; which names can
coincide, which are committed names, and which a glob pattern matches is
decided by cvc5 over the string theory (`decide`).
"""

import functools
import re
import subprocess

import z3

from pyvc.core import *
from pyvc import pure as pure_
from pyvc import seqs
from pyvc.spec import Spec

S = z3.StringSort()
FsArr = z3.ArraySort(S, Val)
Join = z3.Function('path_join', S, S, S)
DirOf = z3.Function('path_dir', S, S)
BaseOf = z3.Function('path_base', S, S)
LastSeg = z3.Function('last_segment', S, S)
Esc = z3.Function('glob_escape', S, S)
Z12 = z3.Function('zero_pad_12', z3.IntSort(), S)
Z12Inv = z3.Function('zero_pad_12_inv', S, z3.IntSort())
Own = z3.Function('owner_uuid', S, S)
Idx = z3.Function('file_index', S, z3.IntSort())
IsFinal = z3.Function('is_committed_metadata_name', S, z3.BoolSort())
Num = z3.Function('update_number_of', S, z3.IntSort())
TplId = z3.Function('template_of', S, z3.IntSort())
# non-empty, no leading dot, no slash
Visible = z3.Function('is_visible_name', S, z3.BoolSort())
SLe = z3.Function('str_le', S, S, z3.BoolSort())

MAXN = 10 ** 12
FINAL_RE = ('metadata-', 'z', '.pb')

_D = z3.Range('0', '9')
_H = z3.Union(_D, z3.Range('a', 'f'))
_KIND_RE = {
    'z': z3.Loop(_D, 12, 12),
    'u': z3.Concat(z3.Loop(_H, 8, 8), z3.Re('-'), z3.Loop(_H, 4, 4), z3.Re('-'),
                   z3.Loop(_H, 4, 4), z3.Re('-'), z3.Loop(_H, 4, 4), z3.Re('-'),
                   z3.Loop(_H, 12, 12)),
}


def _cvc5(fs):
  s = z3.Solver()
  s.add(*fs)
  txt = '(set-logic ALL)\n' + s.to_smt2()
  try:
    p = subprocess.run(['cvc5', '--lang', 'smt2', '--strings-exp', '--tlimit=8000', '-'],
                       input=txt, capture_output=True, text=True, timeout=12)
    return p.stdout.strip().splitlines()[0] if p.stdout.strip() else 'unknown'
  except (OSError, subprocess.SubprocessError):
    return 'unknown'


def _inst(parts, tag):
  """(concat term, kind constraints, args)."""
  ts, ks, args = [], [], []
  for n, p in enumerate(parts):
    if isinstance(p, tuple):
      c = z3.String(f'{tag}{n}')
      args.append(c)
      ts.append(c)
      if p[0] in _KIND_RE:
        ks.append(z3.InRe(c, _KIND_RE[p[0]]))
    else:
      ts.append(z3.StringVal(p))
  return (z3.Concat(*ts) if len(ts) > 1 else ts[0]), ks, args


def pattern_re(pat):
  """z3 regex of a glob pattern (no '/'); None if not understood."""
  out = []
  i = 0
  anyc = z3.Diff(z3.AllChar(z3.ReSort(S)), z3.Re('/'))
  while i < len(pat):
    c = pat[i]
    if c == '*':
      out.append(z3.Star(anyc))
    elif c == '?':
      out.append(anyc)
    elif c == '[':
      k = pat.find(']', i + 2)
      if k < 0:
        return None
      body = pat[i + 1:k]
      if body.startswith('!'):
        return None
      opts = []
      j = 0
      while j < len(body):
        if j + 2 < len(body) and body[j + 1] == '-':
          opts.append(z3.Range(body[j], body[j + 2]))
          j += 3
        else:
          opts.append(z3.Re(body[j]))
          j += 1
      out.append(z3.Union(*opts) if len(opts) > 1 else opts[0])
      i = k
    else:
      out.append(z3.Re(c))
    i += 1
  if not out:
    return None
  r = z3.Concat(*out) if len(out) > 1 else out[0]
  if pat[0] in '*?[':
    nodot = z3.Concat(z3.Diff(z3.AllChar(z3.ReSort(S)), z3.Re('.')),
                      z3.Star(z3.AllChar(z3.ReSort(S))))
    r = z3.Intersect(r, nodot)
  return r


def _final_re():
  return z3.Concat(z3.Re(FINAL_RE[0]), _KIND_RE['z'], z3.Re(FINAL_RE[2]))


@functools.lru_cache(None)
def decide(parts):
  """Facts about one template: dict."""
  t1, k1, a1 = _inst(parts, 'a')
  t2, k2, a2 = _inst(parts, 'b')
  inj = []
  for x, y in zip(a1, a2):
    inj.append(_cvc5(k1 + k2 + [t1 == t2, x != y]) == 'unsat')
  fin = _final_re()
  if _cvc5(k1 + [z3.InRe(t1, fin)]) == 'unsat':
    final = 'never'
  elif _cvc5(k1 + [z3.Not(z3.InRe(t1, fin))]) == 'unsat':
    final = 'always'
  else:
    final = 'unknown'
  slash = _cvc5(k1 + [z3.Contains(t1, z3.StringVal('/'))]) != 'unsat'
  return {'inj': tuple(inj), 'final': final, 'slash': slash}


@functools.lru_cache(None)
def disjoint(p, q):
  t1, k1, _ = _inst(p, 'a')
  t2, k2, _ = _inst(q, 'b')
  return _cvc5(k1 + k2 + [t1 == t2]) == 'unsat'


@functools.lru_cache(None)
def matches(parts, pat):
  r = pattern_re(pat)
  if r is None:
    return 'unknown'
  t, k, _ = _inst(parts, 'a')
  if _cvc5(k + [z3.InRe(t, r)]) == 'unsat':
    return 'never'
  if _cvc5(k + [z3.Not(z3.InRe(t, r))]) == 'unsat':
    return 'always'
  return 'unknown'


_CHARS = [chr(c) for c in range(128)] + ['\u1234']  # one for all others


def glob_tokens(pat):
  """[(set of characters, repeated)]; None if not understood."""
  out = []
  i = 0
  noslash = frozenset(c for c in _CHARS if c != '/')
  while i < len(pat):
    c = pat[i]
    if ord(c) > 127:
      return None
    if c == '*':
      out.append((noslash, True))
    elif c == '?':
      out.append((noslash, False))
    elif c == '[':
      k = pat.find(']', i + 2)
      if k < 0 or pat[i + 1] == '!':
        return None
      body, j, cs = pat[i + 1:k], 0, set()
      while j < len(body):
        if j + 2 < len(body) and body[j + 1] == '-':
          cs |= {x for x in _CHARS if body[j] <= x <= body[j + 2]}
          j += 3
        else:
          cs.add(body[j])
          j += 1
      out.append((frozenset(cs), False))
      i = k
    else:
      out.append((frozenset(c), False))
    i += 1
  if out and pat[0] in '*?[':
    out[0:0] = [('nodot', False)]
  return out


_DIGITS = frozenset('0123456789')
_FINAL_TOKENS = ([(frozenset(c), False) for c in FINAL_RE[0]] + [(_DIGITS, False)] * 12
                 + [(frozenset(c), False) for c in FINAL_RE[2]])
_VISIBLE_TOKENS = [(frozenset(c for c in _CHARS if c not in '/.'), False),
                   (frozenset(c for c in _CHARS if c != '/'), True)]


def _start(toks):
  return _close(toks, {0})


def _close(toks, ss):
  ss = set(ss)
  todo = list(ss)
  while todo:
    q = todo.pop()
    if q < len(toks) and (toks[q][1] or toks[q][0] == 'nodot'):
      # (a leading dot is ruled out by the caller)
      if q + 1 not in ss:
        ss.add(q + 1)
        todo.append(q + 1)
  return frozenset(ss)


def _step(toks, ss, c):
  out = set()
  for q in ss:
    if q < len(toks) and toks[q][0] != 'nodot' and c in toks[q][0]:
      out.add(q if toks[q][1] else q + 1)
  return _close(toks, out)


def included(a, b):
  """Every string of token list a is one of token list b (exact)."""
  if a is None or b is None:
    return False
  nodot = lambda t: bool(t) and t[0][0] == 'nodot'
  seen, todo = set(), [(_start(a), _start(b), True)]
  while todo:
    st = todo.pop()
    if st in seen:
      continue
    seen.add(st)
    x, y, first = st
    if len(a) in x and len(b) not in y:
      return False
    for c in _CHARS:
      x2 = frozenset() if first and c == '.' and nodot(a) else _step(a, x, c)
      if not x2:
        continue
      y2 = frozenset() if first and c == '.' and nodot(b) else _step(b, y, c)
      todo.append((x2, y2, False))
  return True


def pattern_is_final(pat):
  t = glob_tokens(pat)
  return included(t, _FINAL_TOKENS) and included(_FINAL_TOKENS, t)


def pattern_all_visible(pat):
  """Matches every non-empty name that does not start with a dot."""
  return included(_VISIBLE_TOKENS, glob_tokens(pat))


def final_matches(pat):
  """Matches every committed metadata name."""
  return included(_FINAL_TOKENS, glob_tokens(pat))


class FileObj:

  def __init__(self, path, mode):
    self.path = path
    self.mode = mode
    self.data = None
    self.content = None


class FsSpec(Spec):
  """Adds file names, the ghost file system and thread pools to a spec."""

  pure_comps = True
  faults = True
  alone = False  # no interference

  def __init__(self, prop=None):
    super().__init__()
    self.prop = prop
    self.models['os.path.join'] = Builtin('os.path.join', self.m_join)
    self.models['os.path.dirname'] = Builtin('os.path.dirname', lambda it, a, k: self.m_pathpart(it, a[0], DirOf))
    self.models['os.path.basename'] = Builtin('os.path.basename', lambda it, a, k: self.m_pathpart(it, a[0], LastSeg))
    self.models['concurrent.futures.as_completed'] = Builtin('concurrent.futures.as_completed', self.m_completed)
    self.models['concurrent.futures.wait'] = Builtin(
        'concurrent.futures.wait', lambda it, a, k: (self.m_completed(it, a, k), ()))
    self.models['glob.escape'] = Builtin('glob.escape', self.m_escape)
    self.models['uuid.uuid1'] = Builtin('uuid.uuid1', self.m_uuid)
    self.models['uuid.uuid4'] = Builtin('uuid.uuid4', self.m_uuid)
    self.models['concurrent.futures.ThreadPoolExecutor'] = Builtin(
        'concurrent.futures.ThreadPoolExecutor', self.m_pool)

  def ob(self, it, props, name, f):
    """An obligation that belongs to some of the properties."""
    if self.prop in props.split():
      it.oblige(f'{self.prop}: {name}', f)
    else:
      it.assume_q(f)

  # -- strings --
  def parts_of(self, it, v):
    if isinstance(v, str):
      return [v]
    reg = it.ghost.setdefault('tparts', {})
    e = reg.get(v.t.get_id())
    if e is not None:
      return e[1]
    return [(self.kind(it, v.t), v.t)]

  def kind(self, it, t):
    if z3.is_app(t):
      d = t.decl()
      if d.eq(Z12):
        return 'z'
      if d.name().startswith('uuid!') or d.name().startswith('uuid_of!'):
        return 'u'
    return 'a'

  def concat(self, it, parts):
    flat = []
    for p in parts:
      if not isinstance(p, (str, SStr)):
        return SStr(it.fresh('str', S))
      for q in self.parts_of(it, p):
        if isinstance(q, str) and flat and isinstance(flat[-1], str):
          flat[-1] += q
        elif q != '':
          flat.append(q)
    if not flat:
      return ''
    if all(isinstance(q, str) for q in flat):
      return ''.join(flat)
    if len(flat) == 1:
      return SStr(flat[0][1])
    return self.template(it, flat)

  def template(self, it, flat):
    key = tuple(q if isinstance(q, str) else (q[0],) for q in flat)
    f = self.tpl_fn(it, key)
    t = f(*[q[1] for q in flat if not isinstance(q, str)])
    it.ghost.setdefault('tparts', {})[t.get_id()] = (t, list(flat))
    return SStr(t)

  def tpl_fn(self, it, key):
    name = 'tpl:' + ''.join(q if isinstance(q, str) else '%' + q[0] for q in key)
    kinds = [q[0] for q in key if not isinstance(q, str)]
    f = z3.Function(name, *[S] * len(kinds), S)
    reg = it.ghost.setdefault('tpls', {})
    if key not in reg:
      reg[key] = f
      for x in self.tpl_facts(it, key, f, kinds):
        it.axiom(x)
      for pat in list(it.ghost.get('pats', ())):
        self.pat_facts(it, pat, key, f)
    return f

  def tpl_facts(self, it, key, f, kinds):
    """Facts about every name of this template (numbers below 10^12)."""
    if 'z' not in kinds and 'u' not in kinds:
      if isinstance(key[-1], tuple) and key[-1] == ('a',):
        # ends with its last argument: same last path segment
        xs = [z3.Const(f'x{n}', S) for n in range(len(kinds) - 1)]
        d, b = z3.Consts('d b', S)
        t = f(*xs, Join(d, b))
        yield FA(xs + [d, b], LastSeg(t) == b, patterns=[t])
      return
    d = decide(key)
    if d['slash'] and 'a' not in kinds:
      return
    # bound variables: an Int for every 'z' argument
    vs, args = [], []
    for n, k in enumerate(kinds):
      if k == 'z':
        v = z3.Int(f'n{n}')
        vs.append(v)
        args.append(Z12(v))
      else:
        v = z3.Const(f'x{n}', S)
        vs.append(v)
        args.append(v)
    t = f(*args)
    rng = z3.And(True, *[z3.And(0 <= v, v < MAXN) for v, k in zip(vs, kinds) if k == 'z'])
    facts = []
    if d['final'] == 'never':
      facts.append(z3.Not(IsFinal(t)))
    if d['final'] == 'always':
      facts.append(IsFinal(t))
      if key == (FINAL_RE[0], ('z',), FINAL_RE[2]):
        facts.append(Num(t) == vs[0])
    us = [n for n, k in enumerate(kinds) if k == 'u']
    zs = [n for n, k in enumerate(kinds) if k == 'z']
    if len(us) == 1 and d['inj'][us[0]]:
      facts.append(Own(t) == vs[us[0]])
    if len(zs) == 1 and d['inj'][zs[0]]:
      facts.append(Idx(t) == vs[zs[0]])
    others = [q for q in it.ghost['tpls'] if q != key and any(
        isinstance(x, tuple) and x[0] in 'zu' for x in q)]
    if all(disjoint(key, q) for q in others):
      facts.append(TplId(t) == len(it.ghost['tpls']))
    if facts:
      yield FA(vs, z3.Implies(rng, z3.And(*facts)), patterns=[t])

  def m_str_of_int(self, it, v):
    """str(n) as a decimal number; only its zero-padded form is interpreted."""
    t = z3.Function('decimal', z3.IntSort(), S)(v.t)
    it.ghost.setdefault('decimals', {})[t.get_id()] = (t, v.t)
    return SStr(t)

  def pad(self, it, n):
    k = z3.Int('k')
    if not it.ghost.get('z12'):
      it.ghost['z12'] = True
      a, b = z3.Ints('a b')
      it.axiom(FA([k], z3.Implies(z3.And(0 <= k, k < MAXN), Z12Inv(Z12(k)) == k),
                     patterns=[Z12(k)]))
    return SStr(Z12(n))

  def call_type(self, it, t, a, k):
    if t is str and len(a) == 1 and isinstance(a[0], SInt):
      return self.m_str_of_int(it, a[0])
    if t is str and len(a) == 1 and isinstance(a[0], Obj):
      u = getattr(a[0], 'uuid', None)
      return SStr(u) if u is not None else SStr(it.fresh('str', S))
    if t is int and len(a) == 1 and isinstance(a[0], SStr):
      st = it.ghost.get('stripped', {}).get(a[0].t.get_id())
      if st is not None and st[2:] == ('metadata-', '.pb') and it.entails(IsFinal(st[1]), 3000, True) == 'unsat':
        return SInt(Num(st[1]))
    return UNDEF

  def strip(self, it, s, name):
    def f(it, a, k):
      # what remains of a committed name is its number
      st = it.ghost.get('stripped', {}).get(s.t.get_id(), (s.t, s.t, '', ''))
      if len(a) != 1 or not isinstance(a[0], str):
        raise Unsupported(name)
      r = it.fresh('stripped', S)
      e = (r, st[1], a[0], st[3]) if name == 'removeprefix' else (r, st[1], st[2], a[0])
      if name == 'removeprefix' and st[2] or name == 'removesuffix' and st[3]:
        e = (r, r, '', '')
      it.ghost['stripped'] = dict(it.ghost.get('stripped', {}))
      it.ghost['stripped'][r.get_id()] = e
      return SStr(r)
    return Builtin('str.' + name, f)

  def str_method(self, it, s, name):
    dec = it.ghost.get('decimals', {}).get(s.t.get_id())
    if name in ('zfill', 'rjust') and dec is not None:
      def f(it, a, k):
        if a and a[0] == 12 and (name == 'zfill' or a[1:] == ['0']):
          return self.pad(it, dec[1])
        return SStr(it.fresh('padded', S))
      return Builtin('str.' + name, f)
    if name in ('removeprefix', 'removesuffix'):
      return self.strip(it, s, name)
    return UNDEF

  def format_value(self, it, v, p):
    if isinstance(v, Obj):
      u = getattr(v, 'uuid', None)
      if u is not None and p.format_spec is None and p.conversion in (-1, 115):
        return SStr(u)
      return SStr(it.fresh('fmt', S))
    if p.format_spec is not None and isinstance(v, SInt):
      parts = p.format_spec.values
      if len(parts) == 1 and getattr(parts[0], 'value', None) == '012d':
        return self.pad(it, v.t)
      return SStr(it.fresh('fmt', S))
    if p.format_spec is None and isinstance(v, SInt):
      return self.m_str_of_int(it, v)
    if p.format_spec is None and p.conversion == -1 and isinstance(v, SVal):
      return SStr(it.fresh('fmt', S))
    return UNDEF

  def binop(self, it, op, a, b):
    import ast
    if isinstance(op, ast.Add) and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
      if not (isinstance(a, str) and isinstance(b, str)):
        return self.concat(it, [a, b])
    if isinstance(op, ast.Mod) and isinstance(a, str):
      return SStr(it.fresh('fmt', S))
    return UNDEF

  def strval(self, it, v):
    """A value known to be a string, as a string value."""
    if isinstance(v, SVal):
      if it._sat(z3.Not(Val.is_str(v.t))) == z3.unsat:
        return it.fv(Val.str(Val.s(v.t)))
      return it.unopaque(v)
    return v

  def m_join(self, it, a, k):
    if all(isinstance(x, str) for x in a):
      import posixpath
      return posixpath.join(*a)
    r = a[0]
    for x in a[1:]:
      r = self.join(it, it.str_t(self.strval(it, r)), it.str_t(self.strval(it, x)))
    return r

  def join_facts(self, it):
    if not it.ghost.get('joinf'):
      it.ghost['joinf'] = True
      d, b = z3.Consts('d b', S)
      it.axiom(FA([d, b], z3.And(DirOf(Join(d, b)) == d, BaseOf(Join(d, b)) == b,
                                    LastSeg(Join(d, b)) == b), patterns=[Join(d, b)]))

  def join(self, it, d, b):
    self.join_facts(it)
    return SStr(Join(d, self.literal(it, b)))

  def literal(self, it, b):
    """Constant text that is a committed name, as an instance of the template."""
    if z3.is_string_value(b):
      m = re.fullmatch(re.escape(FINAL_RE[0]) + '([0-9]{12})' + re.escape(FINAL_RE[2]),
                       b.as_string())
      if m:
        f = self.tpl_fn(it, (FINAL_RE[0], ('z',), FINAL_RE[2]))
        return f(self.pad(it, z3.IntVal(int(m.group(1)))).t)
    return b

  def m_pathpart(self, it, v, f):
    if isinstance(v, str):
      import posixpath
      return posixpath.dirname(v) if f is DirOf else posixpath.basename(v)
    self.join_facts(it)
    return SStr(f(it.str_t(self.strval(it, v))))

  def m_completed(self, it, a, k):
    """The futures in an arbitrary order."""
    from pyvc import builtins_model
    if it.pure:
      raise pure_.NotPure('as_completed')
    v = builtins_model.as_tuple(it, a[0])
    if isinstance(v, tuple) and len(v) <= 1:
      return v
    s = it.seq_term(v) if not isinstance(v, tuple) else seqs.seq_of_terms([pure_.reify(it, x) for x in v])
    t = it.fresh('completed', SeqVal)
    x = z3.Const('x', Val)
    it.assume_q(seqs.Length(t) == seqs.Length(s))
    it.assume_q(FA([x], seqs.has(t, x) == seqs.has(s, x), patterns=[seqs.has(t, x)]))
    it.assume_q(FA([x], seqs.has(t, x) == seqs.has(s, x), patterns=[seqs.has(s, x)]))
    return STup(t)

  def m_escape(self, it, a, k):
    return SStr(Esc(it.str_t(self.strval(it, a[0]))))

  def m_uuid(self, it, a, k):
    """A fresh uuid: no present file carries it (in any directory)."""
    if it.pure:
      raise pure_.NotPure('uuid')
    self.init_fs(it)
    u = it.fresh('uuid', S)
    fs = it.ghost['fs']
    mine = it.ghost['mine']
    p = z3.Const('p', S)
    it.assume_q(z3.Not(mine[u]))
    it.assume_q(FA([p], z3.Implies(Own(BaseOf(p)) == u, fs[p] == NONE), patterns=[fs[p]]))
    it.assume_q(FA([p], z3.Implies(Own(BaseOf(p)) == u, z3.Not(it.ghost['keep'][p])),
                   patterns=[it.ghost['keep'][p]]))
    it.ghost['mine'] = it.define('mine', z3.Store(mine, u, z3.BoolVal(True)))
    self.count(it, 'uuids')
    o = it.new_obj(ExtRef('uuid.UUID'))
    o.uuid = u
    it.ghost.setdefault('uuids', []).append(u)
    self.on_uuid(it, u)
    return o

  def on_uuid(self, it, u):
    pass

  # -- ghost file system --
  def init_fs(self, it):
    if 'fs' in it.ghost:
      return
    self.join_facts(it)
    it.ghost['fs'] = it.fresh('fs', FsArr)
    it.ghost['mine'] = z3.K(S, z3.BoolVal(False))
    it.ghost['keep'] = it.fresh('keep', z3.ArraySort(S, z3.BoolSort()))
    g = it.new_obj(ExtRef('ghost'))
    g.fields.update(uuids=0, commits=0, faults=0)
    it.ghost['G'] = g
    it.ghost['pools'] = []

  def count(self, it, what):
    """Ghost counters live in an object, so that loops havoc them."""
    g = it.ghost['G']
    v = g.fields[what]
    g.fields[what] = v + 1 if isinstance(v, int) else SInt(v.t + 1)
    it.wr(g, what)

  def counted(self, it, what):
    return it.int_t(it.ghost['G'].fields[what])

  def after_havoc(self, it):
    if 'fs' not in it.ghost:
      return
    it.ghost['fs'] = it.fresh('fs', FsArr)
    if not isinstance(it.ghost['G'].fields['uuids'], int):
      u = z3.Const('u', S)
      m = it.fresh('mine', z3.ArraySort(S, z3.BoolSort()))
      m0 = it.ghost['mine']
      it.assume_q(FA([u], z3.Implies(m0[u], m[u]), patterns=[m[u]]))
      it.ghost['mine'] = m

  def stable(self, it, a, b):
    """Interference from a to b."""
    p = z3.Const('p', S)
    mine, keep = it.ghost['mine'], it.ghost['keep']
    return FA([p], z3.Implies(
        z3.Or(mine[Own(BaseOf(p))],
              z3.And(a[p] != NONE, z3.Or(IsFinal(BaseOf(p)), keep[p]))),
        b[p] == a[p]), patterns=[b[p]])

  def env(self, it):
    if it.pure:
      raise pure_.NotPure('file system')
    self.init_fs(it)
    if not it.ghost.get('in_task') and any(
        o.open and o.fields['tasks'] != 0 for o in it.ghost['pools']):
      raise Unsupported('file operations while tasks of a pool are running')
    a = it.ghost['fs']
    if self.alone:
      return
    b = it.fresh('fs', FsArr)
    it.assume_q(self.stable(it, a, b))
    mine, keep = it.ghost['mine'], it.ghost['keep']
    for p in it.ghost.get('tracked', ()):  # instances of the above
      it.assume_q(z3.Implies(
          z3.Or(mine[Own(BaseOf(p))],
                z3.And(a[p] != NONE, z3.Or(IsFinal(BaseOf(p)), keep[p]))), b[p] == a[p]))
    it.ghost['fs'] = b
    self.after_env(it, a, b)

  def after_env(self, it, a, b):
    pass

  def fault(self, it):
    if self.faults and it.choose('io_error'):
      self.count(it, 'faults')
      it.throw(OSError, 'injected')

  def put(self, it, p, v):
    it.ghost['fs'] = it.define('fs', z3.Store(it.ghost['fs'], p, v))

  def path(self, it, v):
    return it.str_t(self.strval(it, v))

  def own_path(self, it, p):
    return z3.And(it.ghost['mine'][Own(BaseOf(p))], z3.Not(IsFinal(BaseOf(p))))

  def fs_method(self, it, o, name):
    f = getattr(self, 'fs_' + name, None)
    if f is None:
      raise Unsupported(f'file system operation {name}')
    def g(it, a, k):
      it.ghost['op_fs'] = o
      return f(it, *a, **k)
    return Builtin('fs.' + name, g)

  def fs_exists(self, it, p):
    self.env(it)
    p = self.path(it, p)
    self.fault(it)
    return SBool(it.ghost['fs'][p] != NONE)

  IsDir = z3.Function('is_directory', Val, z3.BoolSort())

  def fs_is_dir(self, it, p):
    self.env(it)
    p = self.path(it, p)
    self.fault(it)
    v = it.ghost['fs'][p]
    return SBool(z3.And(v != NONE, self.IsDir(v)))

  def fs_make_dirs(self, it, p, **kw):
    self.env(it)
    p = self.path(it, p)
    self.on_mutate(it, 'make_dirs', p)
    self.fault(it)
    v = it.fresh('dir', Val)
    it.assume_q(v != NONE)
    fs = it.ghost['fs']
    self.put(it, p, z3.If(fs[p] == NONE, v, fs[p]))
    return None

  def fs_open(self, it, p, mode='r'):
    self.env(it)
    p = self.path(it, p)
    if not isinstance(mode, str):
      raise Unsupported('open mode')
    o = it.new_obj(ExtRef('file'))
    o.f = FileObj(p, mode)
    if mode in ('rb', 'r'):
      self.fault(it)
      if not it.branch(it.ghost['fs'][p] != NONE):
        it.throw(FileNotFoundError)
      o.f.content = it.ghost['fs'][p]
      return o
    if mode not in ('wb', 'xb', 'w', 'x'):
      raise Unsupported(f'open mode {mode}')
    if mode.startswith('x'):
      if it.branch(it.ghost['fs'][p] != NONE):
        it.throw(FileExistsError)
    self.on_mutate(it, 'open for writing', p)
    self.ob(it, 'P16 P17 P20 P21', 'only files of our own fresh names are written',
            z3.And(self.own_path(it, p), it.ghost['fs'][p] == NONE))
    self.fault(it)
    part = it.fresh('partial', Val)
    it.assume_q(part != NONE)
    self.put(it, p, part)
    return o

  def fs_remove(self, it, p):
    self.env(it)
    p = self.path(it, p)
    self.on_mutate(it, 'remove', p)
    self.ob(it, 'P16 P17 P20 P21', 'only uncommitted files of our own are removed',
            z3.And(self.own_path(it, p), z3.Not(it.ghost['keep'][p])))
    self.fault(it)
    if not it.branch(it.ghost['fs'][p] != NONE):
      it.throw(FileNotFoundError)
    self.put(it, p, NONE)
    return None

  def fs_rename(self, it, a, b, overwrite=True):
    self.env(it)
    a, b = self.path(it, a), self.path(it, b)
    self.on_mutate(it, 'rename', b)
    self.ob(it, 'P16 P17 P20 P21', 'rename never overwrites', overwrite is False)
    self.ob(it, 'P16 P17 P20 P21', 'only an own uncommitted file is renamed',
            z3.And(self.own_path(it, a), z3.Not(it.ghost['keep'][a])))
    self.fault(it)
    fs = it.ghost['fs']
    if not it.branch(fs[a] != NONE):
      it.throw(FileNotFoundError)
    if it.branch(fs[b] != NONE):
      if overwrite is False:
        it.ghost['lost'] = True
        it.throw(FileExistsError)
    self.on_commit(it, a, b)
    v = it.define('content', fs[a])
    self.put(it, b, v)
    self.put(it, a, NONE)
    self.count(it, 'commits')
    return None

  def on_commit(self, it, a, b):
    pass

  def on_mutate(self, it, what, p):
    pass

  def fs_glob(self, it, pat):
    self.env(it)
    self.fault(it)
    pat = self.strval(it, pat)
    R = it.fresh('glob', SeqVal)
    m = z3.Int('m')
    it.assume_q(FA([m], z3.Implies(z3.And(0 <= m, m < Length(R)),
                                   Val.is_str(R[m])), patterns=[R[m]]))
    it.assume_q(it.fresh('first_match', Val) == R[0])  # a term for the solver
    t = it.str_t(pat)
    if (z3.is_app(t) and t.decl().eq(Join) and z3.is_app(t.arg(0))
        and t.arg(0).decl().eq(Esc) and z3.is_string_value(t.arg(1))):
      d = t.arg(0).arg(0)
      text = t.arg(1).as_string()
      fs = it.ghost['fs']
      M = z3.Function('match:' + text, S, z3.BoolSort())
      it.nfresh += 1
      ix = z3.Function(f'glob_ix!{it.nfresh}', S, z3.IntSort())
      p = z3.Const('p', S)
      e = Val.s(R[m])
      it.assume_q(FA([m], z3.Implies(z3.And(0 <= m, m < Length(R)), z3.And(
          DirOf(e) == d, Join(d, BaseOf(e)) == e, M(BaseOf(e)), fs[e] != NONE)),
                     patterns=[R[m]]))
      it.assume_q(FA([p], z3.Implies(
          z3.And(fs[p] != NONE, DirOf(p) == d, M(BaseOf(p))),
          z3.And(0 <= ix(p), ix(p) < Length(R), R[ix(p)] == Val.str(p))),
                     patterns=[fs[p]]))
      pats = it.ghost.setdefault('pats', [])
      if text not in pats:
        pats.append(text)
        x = z3.Const('x', S)
        if pattern_is_final(text):
          it.axiom(FA([x], M(x) == IsFinal(x), patterns=[M(x)]))
          it.axiom(FA([x], M(x) == IsFinal(x), patterns=[IsFinal(x)]))
        elif final_matches(text):
          it.axiom(FA([x], z3.Implies(IsFinal(x), M(x)), patterns=[IsFinal(x)]))
        if pattern_all_visible(text):
          it.axiom(FA([x], z3.Implies(Visible(x), M(x)), patterns=[Visible(x)]))
        for key, f in it.ghost.get('tpls', {}).items():
          self.pat_facts(it, text, key, f)
    r = it.new_list_sym(R)
    r.globbed = True
    return r

  def pat_facts(self, it, text, key, f):
    kinds = [q[0] for q in key if not isinstance(q, str)]
    if 'z' not in kinds and 'u' not in kinds:
      return
    w = matches(key, text)
    if w == 'unknown':
      return
    vs, args = [], []
    for n, k in enumerate(kinds):
      v = z3.Int(f'n{n}') if k == 'z' else z3.Const(f'x{n}', S)
      vs.append(v)
      args.append(Z12(v) if k == 'z' else v)
    rng = z3.And(True, *[z3.And(0 <= v, v < MAXN) for v, k in zip(vs, kinds) if k == 'z'])
    M = z3.Function('match:' + text, S, z3.BoolSort())
    t = f(*args)
    it.axiom(FA(vs, z3.Implies(rng, M(t) if w == 'always' else z3.Not(M(t))), patterns=[t]))

  def minmax(self, it, a, k, is_max):
    """max/min of a list of paths: lexicographic order."""
    if len(a) != 1 or k:
      return UNDEF
    v = a[0]
    if not isinstance(v, (ListObj, STup)) or (isinstance(v, ListObj) and v.items is not None):
      return UNDEF
    R = it.seq_term(v)
    if not it.branch(Length(R) > 0):
      it.throw(ValueError)
    return self.extreme(it, R, is_max)

  def extreme(self, it, R, is_max):
    k = it.fresh('best', z3.IntSort())
    m = z3.Int('m')
    it.assume_q(z3.And(0 <= k, k < Length(R)))
    x, y = Val.s(R[m]), Val.s(R[k])
    it.assume_q(FA([m], z3.Implies(z3.And(0 <= m, m < Length(R)),
                                   SLe(x, y) if is_max else SLe(y, x)), patterns=[R[m]]))
    self.order_facts(it)
    return SStr(Val.s(R[k]))

  def order_facts(self, it):
    """Lexicographic order of committed names in one directory is numeric
    (constant text around numbers of equal width)."""
    if it.ghost.get('orderf'):
      return
    it.ghost['orderf'] = True
    p, q = z3.Consts('p q', S)
    it.axiom(FA([p, q], z3.Implies(
        z3.And(DirOf(p) == DirOf(q), Join(DirOf(p), BaseOf(p)) == p,
               Join(DirOf(q), BaseOf(q)) == q, IsFinal(BaseOf(p)), IsFinal(BaseOf(q))),
        SLe(p, q) == (Num(BaseOf(p)) <= Num(BaseOf(q)))), patterns=[SLe(p, q)]))

  # -- objects --
  def new_fs(self, it):
    self.init_fs(it)
    return it.new_obj(ExtRef('FileSystem'))

  def obj_attr(self, it, o, name):
    c = o.cls.name if isinstance(o.cls, ExtRef) else None
    if c == 'FileSystem':
      return self.fs_method(it, o, name)
    if c == 'file':
      return self.file_attr(it, o, name)
    if c == 'Pool':
      return self.pool_attr(it, o, name)
    if c == 'Future':
      return self.fut_attr(it, o.term, name)
    return UNDEF

  def fut_attr(self, it, t, name):
    if name == 'result':
      return Builtin('Future.result', lambda it, a, k: self.fut_result(it, t))
    if name == 'exception':
      return Builtin('Future.exception', lambda it, a, k: self.fut_exception(it, t))
    if name == 'done':
      return Builtin('Future.done', lambda it, a, k: SBool(it.fresh('done', z3.BoolSort())))
    if name == 'cancelled':
      return Builtin('Future.cancelled', lambda it, a, k: False)
    return UNDEF

  def fut_exception(self, it, t):
    if it.branch(self.FutOK(t)):
      return None
    self.count(it, 'faults')
    e = it.new_obj(OSError)
    e.fields['args'] = ()
    return e

  def file_attr(self, it, o, name):
    if name == 'read':
      return Builtin('file.read', lambda it, a, k: self.file_read(it, o))
    if name == 'write':
      return Builtin('file.write', lambda it, a, k: self.file_write(it, o, a[0]))
    if name == 'close':
      return Builtin('file.close', lambda it, a, k: self.file_close(it, o))
    raise Unsupported(f'file.{name}')

  def file_read(self, it, o):
    self.env(it)
    self.fault(it)
    if o.f.content is None:
      raise Unsupported('read of a file opened for writing')
    return SVal(o.f.content)

  def file_write(self, it, o, data):
    self.env(it)
    self.fault(it)
    v = pure_.reify(it, data)
    if o.f.data is not None:
      v = it.fresh('appended', Val)
    o.f.data = v
    it.assume_q(v != NONE)
    return None

  def file_close(self, it, o):
    if o.f.content is None and not getattr(o, 'is_closed', False):
      # close() flushes; it may fail as well
      o.is_closed = True
      self.env(it)
      self.fault(it)
      v = o.f.data
      if v is None:
        v = it.fresh('empty', Val)
        it.assume_q(v != NONE)
      self.put(it, o.f.path, v)

  def with_model(self, it, cm, run):
    if isinstance(cm, Obj) and isinstance(cm.cls, ExtRef):
      if cm.cls.name == 'file':
        run(cm)
        self.file_close(it, cm)
        return None
      if cm.cls.name == 'Pool':
        cm.open = True
        try:
          run(cm)
        finally:
          cm.open = False
        return None
    return UNDEF

  # -- thread pools --
  def m_pool(self, it, a, k):
    if it.pure:
      raise pure_.NotPure('pool')
    self.init_fs(it)
    o = it.new_obj(ExtRef('Pool'))
    o.open = False
    o.fields['tasks'] = 0
    it.ghost['pools'].append(o)
    return o

  FutOK = z3.Function('future_ok', Val, z3.BoolSort())
  FutVal = z3.Function('future_value', Val, Val)

  def pool_attr(self, it, o, name):
    if name == 'submit':
      return Builtin('Pool.submit', lambda it, a, k: self.submit(it, o, a, k))
    raise Unsupported(f'Pool.{name}')

  def submit(self, it, o, a, k):
    """Runs the task now; its file operations are interleaved with the
    environment, and it writes only files no other task writes (obligation at
    open: the file is absent)."""
    if it.pure:
      raise pure_.NotPure('submit')
    if not o.open:
      raise Unsupported('a pool that is not closed by a with statement')
    saved = it.ghost.get('in_task')
    it.ghost['in_task'] = True
    n = o.fields['tasks']
    o.fields['tasks'] = n + 1 if isinstance(n, int) else SInt(n.t + 1)
    it.wr(o, 'tasks')
    f = it.fresh('future', Val)
    it.assume_q(Val.is_ref(f))
    try:
      v = it.call(a[0], a[1:], k)
      it.assume_q(self.FutOK(f))
      it.assume_q(self.FutVal(f) == pure_.reify(it, v))
    except PyRaise as e:
      it.assume_q(z3.Not(self.FutOK(f)))
    finally:
      it.ghost['in_task'] = saved
    fo = it.new_obj(ExtRef('Future'))
    fo.term = f
    return fo

  def fut_result(self, it, t):
    if it.branch(self.FutOK(t)):
      return self.fut_value(it, t)
    self.count(it, 'faults')
    it.throw(OSError, 'task failed')

  def fut_value(self, it, t):
    return it.fv(self.FutVal(t))

  def reify(self, it, v):
    if isinstance(v, Obj) and isinstance(v.cls, ExtRef) and v.cls.name == 'Future':
      return v.term
    return UNDEF

  def list_item(self, it, l, x):
    r = self.reify(it, x)
    return UNDEF if r is UNDEF else SVal(r)
