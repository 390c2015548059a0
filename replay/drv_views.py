"""Executable contract of koladata.ext.view (P22, P23)."""

import copy
import importlib.util
import os
import random
import subprocess
import sys
import sysconfig
import types

import common

NS = types.SimpleNamespace
EXT = 'koladata.ext.view.clib_py_ext'


def map_structures(f, depths, include_missing, args, kwnames=()):
  """Python reading of clib.cc, used when it cannot be compiled here."""
  if not args or len(args) != len(depths):
    raise TypeError('args')
  if min(depths) < 0:
    raise ValueError('depth')

  def go(level, xs):
    deep = [x for x, d in zip(xs, depths) if d > level]
    if not deep:
      if not include_missing and any(x is None for x in xs):
        return None
      k = len(xs) - len(kwnames)
      return f(*xs[:k], **dict(zip(kwnames, xs[k:])))
    if any(type(x) is not tuple for x in deep) or len({len(x) for x in deep}) > 1:
      raise TypeError('structure')
    return tuple(go(level + 1, [x[i] if d > level else x for x, d in zip(xs, depths)]) for i in range(len(deep[0])))
  return go(0, list(args))


def load(c):
  src = [os.path.join(common.REPO, 'py/koladata/ext/view', n) for n in ('clib.cc', 'clib_module.cc')]
  out = os.path.join(common.scratch(), 'clib_py_ext.so')
  stubs = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
  try:
    subprocess.run(['g++', '-std=c++20', '-O1', '-shared', '-fPIC', '-w', '-I' + stubs, '-I' + common.REPO,
                    '-I' + sysconfig.get_paths()['include'], *src, '-o', out], check=True, capture_output=True, timeout=120)
    spec = importlib.util.spec_from_file_location(EXT, out)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    c.notes.append('clib.cc compiled against stub headers and used')
  except (OSError, subprocess.SubprocessError, ImportError) as e:
    m = types.ModuleType(EXT)
    m.map_structures = map_structures
    c.notes.append('clib.cc could not be compiled: reference map_structures used')
  sys.modules[EXT] = m
  import koladata.ext.view as pkg
  pkg.clib_py_ext = m
  from koladata.ext.view import kv, view
  return kv, view


class Reject(Exception):
  """The reference rejects the call."""

  def __init__(self, *kinds):
    self.kinds = kinds or (ValueError, TypeError)


class V:
  """Reference view."""

  def __init__(self, o, d):
    self.o, self.d = o, d


def leaves(o, d, pre=()):
  """(path, item) of a jagged structure, in order."""
  if d == 0:
    yield pre, o
  else:
    for i, x in enumerate(o):
      yield from leaves(x, d - 1, pre + (i,))


def shape(o, d):
  return None if d == 0 else tuple(shape(x, d - 1) for x in o)


def fits(a, b):
  """Is the shape a a prefix of b?"""
  if a is None:
    return True
  return b is not None and len(a) == len(b) and all(fits(x, y) for x, y in zip(a, b))


def at(v, path):
  o = v.o
  for i in path[:v.d]:
    o = o[i]
  return o


def build(sh, d, vals):
  return next(vals) if d == 0 else tuple(build(x, d - 1, vals) for x in sh)


def rmap(f, vs, im):
  """Reference of broadcasting f over views."""
  top = max(vs, key=lambda v: v.d)
  sh = shape(top.o, top.d)
  for v in vs:
    if not fits(shape(v.o, v.d), sh):
      raise Reject()  # the items before the mismatch may be rejected first
  out = []
  for p, _ in leaves(top.o, top.d):
    xs = [at(v, p) for v in vs]
    out.append(None if not im and any(x is None for x in xs) else f(*xs))
  return V(build(sh, top.d, iter(out)), top.d)


def canon(x, P):
  """Comparable form of a value; types matter."""
  if x is P:
    return ('present',)
  if isinstance(x, (tuple, list)):
    return (type(x).__name__, [canon(y, P) for y in x])
  if isinstance(x, dict):
    return ('dict', sorted(((repr(canon(k, P)), canon(v, P)) for k, v in x.items()), key=lambda t: t[0]))
  if isinstance(x, NS):
    return ('ns', sorted((k, canon(v, P)) for k, v in vars(x).items()))
  if isinstance(x, V):
    return ('view', x.d, canon(x.o, P))
  return (type(x).__name__, repr(x))


# ---- random structures ----


def leaf(r, kind, P):
  if kind == 'mask':
    return r.choice([P, P, None])
  if kind == 'int':
    return r.choice([None, 0, 1, 2, 3, 5, -1])
  if kind == 'some':
    return r.choice([None, 1, 'a', '', 0, False, 2.5, P, (1, 2), [], 'b', (), b''])
  if kind == 'obj':
    return r.choice([None, NS(a=1), NS(a=None, _b=2), NS(), NS(b=3, a='x'), NS(a=0)])
  if kind == 'list':
    return r.choice([None, [], [1], [1, None, 2], [[1], []], ['a', 'b', 'c']])
  if kind == 'box':
    return r.choice([None, [], [1], [1, 2, 3], {}, {'k': 1, 1: 2}, {0: None}, 'xyz', (4, 5), {2: 'two', 'k': None}])
  if kind == 'tree':
    return r.choice([None, 1, [1, None], {'x': 1, 'y': None}, (2, [3]), {'x': [1, {'z': 2}]}, []])
  if kind == 'key':
    return r.choice([None, 0, 1, 2, -1, 9, 'k', 'zz'])
  raise AssertionError(kind)


def struct(r, sh, d, kind, P):
  return leaf(r, kind, P) if d == 0 else tuple(struct(r, x, d - 1, kind, P) for x in sh)


def rshape(r, d):
  return None if d == 0 else tuple(rshape(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))


def cut(sh, d):
  return None if d == 0 else tuple(cut(x, d - 1) for x in sh)


class Gen:
  """Arguments of one case; built twice from the same seed."""

  def __init__(self, seed, P, wrap):
    self.r = random.Random(seed)
    self.P = P
    self.wrap = wrap
    self.D = self.r.choice([0, 1, 1, 2, 2, 3, 4])
    self.sh = rshape(self.r, self.D)

  def view(self, kind, d=None, any_shape=0.08):
    r = self.r
    if d is None:
      d = r.randint(0, self.D)
    if r.random() < any_shape:
      d = r.randint(0, 4)
      return self.wrap(struct(r, rshape(r, d), d, kind, self.P), d)
    d = max(0, min(d, self.D))
    return self.wrap(struct(r, cut(self.sh, d), d, kind, self.P), d)

  def arg(self, kind, d=None):
    """A view, or a plain value that is boxed."""
    if self.r.random() < 0.15:
      x = leaf(self.r, kind, self.P)
      if x is None or x is self.P or isinstance(x, (int, float, str, bytes, bool)):
        return x
    if self.r.random() < 0.04:
      return self.r.choice([[], {}, (1,), NS()])
    return self.view(kind, d)


def box(x, P):
  if isinstance(x, V):
    return x
  if x is None or x is P or isinstance(x, (int, float, str, bytes, bool)):
    return V(x, 0)
  raise Reject(ValueError)


def lax(x):
  return x if isinstance(x, V) else V(x, 0)


# ---- reference operations ----


def imp(v, n=1):
  if n > v.d:
    raise Reject(ValueError)
  return V(v.o, 0 if n < 0 else v.d - n)


def flat(v, f=0, t=None):
  f = f + v.d if f < 0 else f
  f = min(max(f, 0), v.d)
  t = v.d if t is None else t
  t = t + v.d if t < 0 else t
  t = max(f, min(t, v.d))
  return rmap(lambda x: tuple(y for _, y in leaves(x, t - f)), [V(v.o, f)], True), v.d - (t - f) + 1


def group(sort):
  def g(x, *keys):
    ks = keys or (x,)
    if len({len(x)} | {len(k) for k in ks}) > 1:
      raise Reject(ValueError)
    out = []
    for row in zip(x, *ks):
      key = row[1:]
      if any(k is None for k in key):
        continue
      for k, items in out:
        if k == key:
          items.append(row[0])
          break
      else:
        out.append((key, [row[0]]))
    if sort:
      try:
        ks = sorted(range(len(out)), key=lambda i: out[i][0])
      except TypeError:
        raise Reject(TypeError)
      out = [out[i] for i in ks]
    return tuple(tuple(x) for _, x in out)
  return g


def mask(P):
  def f(x, y):
    if y is not P:
      raise Reject(ValueError)
    return x
  return f


def select(P):
  def f(x, m):
    if len(x) != len(m) or any(y is not P and y is not None for y in m):
      raise Reject(ValueError)
    return tuple(a for a, b in zip(x, m) if b is P)
  return f


def inverse(P):
  def f(x, m):
    if any(y is not P and y is not None for y in m) or len(x) != sum(y is P for y in m):
      raise Reject(ValueError)
    k = iter(x)
    return tuple(next(k) if b is P else None for b in m)
  return f


def collapse(x):
  s = [y for y in x if y is not None]
  return s[0] if s and all(not s[0] != y for y in s) else None


def rselect(v, m, ef, P):
  m = box(m, P)
  if m.d > v.d:
    raise Reject(ValueError)
  n = (v.d if ef else m.d) - 1
  if n < 0:
    raise Reject(ValueError)
  data = V(v.o, n)
  if m.d > n:
    return V(rmap(select(P), [data, V(m.o, n)], True).o, v.d)

  def const(x, y):
    if y is P:
      return x
    if y is None:
      return ()
    raise Reject(ValueError)
  return V(rmap(const, [data, m], True).o, v.d)


def trees(f, im, *xs):
  """Structural map over lists, tuples and dicts."""
  x = xs[0]
  if isinstance(x, (list, tuple)):
    if any(type(y) is not type(x) or len(y) != len(x) for y in xs):
      raise Reject()
    return type(x)([trees(f, im, *ys) for ys in zip(*xs)])
  if isinstance(x, dict):
    if any(type(y) is not dict or set(y) != set(x) for y in xs):
      raise Reject()
    return {k: trees(f, im, *[y[k] for y in xs]) for k in x}
  if not im and any(y is None for y in xs):
    return None
  return f(*xs)


CMP = {'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b, 'less': lambda a, b: a < b,
       'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b}
OPER = {'equal': '__eq__', 'not_equal': '__ne__', 'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__',
        'greater_equal': '__ge__', 'apply_mask': '__and__', 'coalesce': '__or__'}


def cmp(op, P):
  def f(a, b):
    try:
      return P if CMP[op](a, b) else None
    except TypeError:
      raise Reject(TypeError)
  return f


def attr(name):
  def f(x):
    if not hasattr(x, name):
      raise Reject(AttributeError)
    return getattr(x, name)
  return f


def guard(f, *kinds):
  def g(*a):
    try:
      return f(*a)
    except Reject:
      raise
    except Exception as e:
      raise Reject(type(e))
  return g


def item(x, k):
  try:
    return x[k]
  except (IndexError, KeyError):
    return None


def put(x, k, v):
  if x is not None and k is not None:
    try:
      x[k] = v
    except IndexError:
      pass


def add(x, y):
  if x is not None:
    x.append(y)


CASES = {}


def case(f):
  CASES[f.__name__[2:]] = f
  return f


# Each case: g (generator), r (random), real(name, *args) -> result, ref operations on V.
# It returns (call on the real views, reference result thunk, inputs).


def two(name, kinds, fn, im):
  def c(g, R, P):
    k = g.r.choice(kinds)
    if name in CMP:
      a = g.view(k) if g.r.random() < 0.8 else g.arg(k)
      b = g.arg(k)
    else:
      a, b = g.arg(k[0]), g.arg(k[1])
    via = g.r.random() < 0.5 and isinstance(a, (V, R.View))
    return lambda: R.op(name, OPER[name], via, a, b), lambda: rmap(fn(P), [box(a, P), lax(b)], im)
  CASES[name] = c


for _n in CMP:
  two(_n, ['int', 'some'] if _n in ('equal', 'not_equal') else ['int', 'int', 'some'], lambda P, n=_n: cmp(n, P), False)
two('apply_mask', [('some', 'mask'), ('some', 'mask'), ('int', 'some')], mask, False)
two('coalesce', [('some', 'int')], lambda P: lambda x, y: y if x is None else x, True)


@case
def c_reflected(g, R, P):
  x = g.r.choice([None, P, 1, 'a', 0])
  v = g.view(g.r.choice(['mask', 'some']))
  if g.r.random() < 0.5:
    return lambda: R.raw(x | v), lambda: rmap(lambda a, b: b if a is None else a, [V(x, 0), v], True)
  return lambda: R.raw(x & v), lambda: rmap(mask(P), [V(x, 0), v], False)


@case
def c_get_attr(g, R, P):
  v = g.arg('obj')
  n = g.r.choice(['a', 'b', '_b'])
  how = g.r.choice(['plain', 'default', 'dot'])
  if how == 'dot' and isinstance(v, (V, R.View)):
    def want():
      if n[0] == '_':
        raise Reject(AttributeError)
      return rmap(attr(n), [v], False)
    return lambda: R.raw(getattr(v, n)), want
  if how == 'default':
    d = g.arg('some', g.r.choice([0, 0, 0, 1])) if g.r.random() < 0.6 else g.r.choice([None, 7, [], NS(q=1)])
    def want():
      u = box(v, P)
      dv = d
      if isinstance(d, V):
        if d.d:
          raise Reject(ValueError)
        dv = d.o
      return rmap(lambda x: dv if getattr(x, n, None) is None else getattr(x, n), [u], False)
    return lambda: R.kv('get_attr', v, n, d), want
  return lambda: R.kv('get_attr', v, n), lambda: rmap(attr(n), [box(v, P)], False)


@case
def c_set_attrs(g, R, P):
  v = g.view('obj')
  kw = {n: g.arg('some') for n in g.r.sample(['a', 'b', '_c', 'd'], g.r.randint(0, 3))}
  dot = g.r.random() < 0.3
  def call():
    if dot:
      for n, x in kw.items():
        setattr(v, n, x)
      return None
    return R.kv('set_attrs', v, **kw)
  def want():
    for n, x in kw.items():
      if dot and n[0] == '_':
        raise Reject(AttributeError)
      x = lax(x)
      if x.d > v.d:
        raise Reject(ValueError)
      rmap(lambda o, y: setattr(o, n, y) if o is not None else None, [v, x], True)
  return call, want, [v]


@case
def c_explode(g, R, P):
  v = g.arg('list')
  n = g.r.choice([None, 0, 1, 1, 2, -1])
  def want():
    u = box(v, P)
    if n is not None and n < 0:
      raise Reject(ValueError)
    for _ in range(1 if n is None else n):
      u = V(rmap(guard(lambda x: () if x is None else tuple(x)), [u], True).o, u.d + 1)
    return u
  return (lambda: R.kv('explode', v)) if n is None else (lambda: R.kv('explode', v, n)), want


@case
def c_implode(g, R, P):
  v = g.arg('some')
  n = g.r.choice([None, 0, 1, 2, 3, -1, -2, 5])
  return ((lambda: R.kv('implode', v)) if n is None else (lambda: R.kv('implode', v, n)),
          lambda: imp(box(v, P), 1 if n is None else n))


@case
def c_flatten(g, R, P):
  v = g.arg('some')
  args = g.r.choice([(), (g.r.randint(-6, 6),), (g.r.randint(-6, 6), g.r.choice([None, *range(-6, 7)]))])
  def want():
    u, d = flat(box(v, P), *args)
    return V(u.o, d)
  return lambda: R.kv('flatten', v, *args), want


@case
def c_expand_to(g, R, P):
  v, w = g.arg('some', g.r.randint(0, g.D)), g.arg('some', g.D)
  if g.r.random() < 0.1:
    w = v
  n = g.r.choice([0, 0, 0, 1, 1, 2, -1])
  args = () if n == 0 and g.r.random() < 0.5 else (n,)
  def want():
    u = box(v, P)
    if n < 0:
      raise Reject(ValueError)
    if n == 0 and w is v:
      return u
    i = imp(u, n)
    o = box(w, P)
    if i.d > o.d:
      raise Reject(ValueError)
    r = rmap(lambda x, y: x, [i, o], True)
    return V(r.o, r.d + n)
  return lambda: R.kv('expand_to', v, w, *args), want


@case
def c_get_item(g, R, P):
  v = g.arg('box')
  how = g.r.choice(['key', 'key', 'slice', 'take'])
  sub = g.r.random() < 0.5 and isinstance(v, (V, R.View))
  if how == 'slice':
    v = g.view('list')
    parts = [g.r.choice([None, 0, 1, 2, -1]) if g.r.random() < 0.85 else g.arg('int', g.r.choice([0, 0, 1])) for _ in range(2)]
    step = g.r.choice([None] * 8 + [1, 2])
    def want():
      xs = []
      for p in parts:
        p = box(p, P)
        if p.d:
          raise Reject(ValueError)
        xs.append(p.o)
      if step is not None:
        raise Reject(ValueError)
      r = rmap(guard(lambda x: () if x is None else tuple(x[xs[0]:xs[1]])), [v], True)
      return V(r.o, r.d + 1)
    s = slice(*parts, step)
    return (lambda: R.raw(v[s])) if sub else (lambda: R.kv('get_item', v, s)), want
  k = g.arg('key')
  if how == 'take':
    v = g.arg('some')
    return lambda: R.kv('take', v, k), lambda: rmap(guard(item), [imp(box(v, P)), lax(k)], False)
  return ((lambda: R.raw(v[k])) if sub else (lambda: R.kv('get_item', v, k)),
          lambda: rmap(guard(item), [box(v, P), lax(k)], False))


@case
def c_set_item(g, R, P):
  v = g.view(g.r.choice(['list', 'box', 'list']))
  k, x = g.arg('key'), g.arg('some')
  if g.r.random() < 0.05:
    k = slice(None)
  sub = g.r.random() < 0.5
  def call():
    if sub:
      v[k] = x
      return None
    R.kv('set_item', v, k, x)
    return None
  def want():
    if isinstance(k, slice):
      raise Reject(ValueError)
    if lax(x).d > v.d and lax(x).d > lax(k).d:
      raise Reject(ValueError)
    rmap(guard(put), [v, box(k, P), box(x, P)], True)
  return call, want, [v]


@case
def c_append(g, R, P):
  v = g.view('list')
  x = g.arg('some')
  return lambda: R.kv('append', v, x), lambda: rmap(add, [v, lax(x)], True) and None, [v]


@case
def c_group_by(g, R, P):
  kind = g.r.choice(['int', 'mix'])
  kind = 'int' if kind == 'int' else 'some'
  v = g.view('int' if g.r.random() < 0.5 else 'some', g.r.choice([g.D, g.D, g.D, max(0, g.D - 1)]), 0.03)
  ks = [g.arg('int', v.d if isinstance(v, V) else v.get_depth()) if g.r.random() < 0.9 else g.arg('int') for _ in range(g.r.randint(0, 2))]
  s = g.r.choice([None, False, True])
  if not ks:
    v = g.view('int', None, 0.03)
  kw = {} if s is None else {'sort': s}
  def want():
    if not v.d:
      raise Reject(ValueError)
    us = [box(k, P) for k in ks]
    if any(u.d != v.d for u in us):
      raise Reject(ValueError)
    r = rmap(guard(group(bool(s))), [imp(u) for u in [v] + us], False)
    return V(r.o, r.d + 2)
  return lambda: R.kv('group_by', v, *ks, **kw), want


@case
def c_collapse(g, R, P):
  v = g.view(g.r.choice(['int', 'mask']), g.D)
  if g.r.random() < 0.4:
    v = R.mk(struct(g.r, g.sh, g.D, 'mask', P), g.D) if g.r.random() < 0.3 else R.mk(build(g.sh, g.D, iter(lambda: g.r.choice([None, 4, 4]), 0)), g.D)
  n = g.r.choice([None, 0, 1, 2, 3, -1, 5])
  def want():
    m = 1 if n is None else n
    if not 0 <= m <= v.d:
      raise Reject(ValueError)
    return rmap(lambda x: collapse([y for _, y in leaves(x, m)]), [V(v.o, v.d - m)], True)
  return (lambda: R.kv('collapse', v)) if n is None else (lambda: R.kv('collapse', v, n)), want


@case
def c_select(g, R, P):
  v = g.view('some', g.D if g.r.random() < 0.8 else None, 0.04)
  m = g.arg('mask' if g.r.random() < 0.9 else 'some', g.r.choice([g.D, g.D, g.r.randint(0, g.D)]))
  ef = g.r.choice([None, True, False])
  def want():
    return rselect(box(v, P), m, ef is not False, P)
  return (lambda: R.kv('select', v, m)) if ef is None else (lambda: R.kv('select', v, m, ef)), want


@case
def c_inverse_select(g, R, P):
  m = g.arg('mask' if g.r.random() < 0.9 else 'some', g.D)
  v = g.view('some', g.D, 0.04)
  full = lambda x: (x.o, x.d) if isinstance(x, V) else (x.get(), x.get_depth())
  if g.r.random() < 0.85 and isinstance(m, (V, R.View)) and full(m)[1] > 0:
    o, d = full(m)
    def fill(o, d):
      if d == 1:
        n = sum(y is P for y in o)
        if g.r.random() < 0.08:
          n = max(0, n + g.r.choice([-1, 1]))
        return tuple(leaf(g.r, 'some', P) for _ in range(n))
      return tuple(fill(x, d - 1) for x in o)
    v = R.mk(fill(o, d), d)
  def want():
    f = box(m, P)
    if f.d != v.d or not v.d:
      raise Reject(ValueError)
    return V(rmap(inverse(P), [imp(v), imp(f)], True).o, v.d)
  return lambda: R.kv('inverse_select', v, m), want


@case
def c_round_trip(g, R, P):
  """inverse_select undoes select where the filter is present."""
  v = g.view('some', g.D, 0)
  m = g.view('mask', g.D, 0)
  def want():
    if not v.d:
      raise Reject(ValueError)
    return rmap(lambda x, y: x if y is P else None, [v, m], True)
  return lambda: R.raw(R.obj('inverse_select', R.obj('select', v, m), m)), want


@case
def c_map(g, R, P):
  args = [g.arg('int') for _ in range(g.r.randint(1, 2))]
  kw = {n: g.arg('int') for n in g.r.sample(['p', 'q', 'x'], g.r.choice([0, 0, 1, 2]))}
  n = g.r.choice([None, 0, 0, 1, 1, 2, 3, -1])
  im = g.r.choice(['', '', None, True, False])
  f = lambda *a, **k: [list(a), sorted(k.items())]
  opts = {}
  if n is not None:
    opts['ndim'] = n
  if im != '':
    opts['include_missing'] = im
  def want():
    vs = [box(a, P) for a in args] + [box(a, P) for a in kw.values()]
    m = n or 0
    i = bool(m) if im in ('', None) else im
    top = max(v.d for v in vs)
    if m and (not i or m < 0 or m > top):
      raise Reject(ValueError, TypeError)
    if m:
      big = next(v for v in vs if v.d == top)
      vs = [V(rmap(lambda x, y: x, [v, big], True).o, top - m) for v in vs]
    return rmap(lambda *a: f(*a[:len(args)], **dict(zip(kw, a[len(args):]))), vs, i)
  if len(args) == 1 and not kw and isinstance(args[0], (V, R.View)) and g.r.random() < 0.5:
    return lambda: R.raw(args[0].map(f, **opts)), want
  return lambda: R.kv('map', f, *args, **opts, **kw), want


@case
def c_deep_map(g, R, P):
  f = lambda *a: ('f',) + tuple(a)
  im = g.r.choice([None, True, False])
  kw = {} if im is None else {'include_missing': im}
  if g.r.random() < 0.4:
    v = g.view('tree')
    def want():
      return V(trees(f, bool(im), v.o), v.d)
    return lambda: R.raw(v.deep_map(f, **kw)), want
  if g.r.random() < 0.5:
    xs = [g.arg('tree')]
  else:
    a = g.r.choice([[1, None], {'x': 1}, 3])
    b = g.r.choice([[5, 6], {'x': None}, 4])
    xs = [R.mk(a, 0), R.mk(tuple(b for _ in range(g.r.randint(0, 2))), 1)]
  return (lambda: R.kv('deep_map', f, *xs, **kw),
          lambda: rmap(guard(lambda *a: trees(f, bool(im), *a)), [box(x, P) for x in xs], True))


@case
def c_align(g, R, P):
  args = [g.arg('some') for _ in range(g.r.randint(0, 3))]
  def want():
    vs = [box(a, P) for a in args]
    if not vs:
      return []
    top = max(v.d for v in vs)
    big = next(v for v in vs if v.d == top)
    return [rmap(lambda x, y: x, [v, big], True) for v in vs]
  return lambda: [R.raw(x) for x in R.align(*args)], want


@case
def c_plain(g, R, P):
  v = g.view(g.r.choice(['mask', 'some', 'tree']))
  how = g.r.choice(['bool', 'get', 'depth', 'clone', 'iter', 'box', 'nest'])
  def want():
    if how == 'bool':
      if v.d or not (v.o is P or v.o is None):
        raise Reject(ValueError)
      return v.o is P
    if how == 'get':
      return v.o
    if how == 'depth':
      return v.d
    if how == 'clone':
      return V(v.o, v.d)
    if how == 'iter':
      raise Reject(ValueError)
    if how == 'nest':
      raise Reject(TypeError)
    return V(None, 0)
  def call():
    if how == 'bool':
      return bool(v)
    if how == 'get':
      return v.get()
    if how == 'depth':
      return v.get_depth()
    if how == 'clone':
      r = R.obj('deep_clone', v)
      if any(x is y and isinstance(x, (list, dict, NS)) for (_, x), (_, y) in zip(
          leaves(r.get(), r.get_depth()), leaves(v.get(), v.get_depth()))):
        return 'an item is shared with the original'
      return R.same_present(r, v)
    if how == 'iter':
      return list(v)
    if how == 'nest':
      return R.view(v)
    return R.raw(R.box(None))
  return call, want


class Real:
  """Access to the real operations."""

  def __init__(self, kv, view, P):
    self.kvm, self.vm, self.P = kv, view, P
    self.View = view.View
    self.align = kv.align
    self.view = kv.view
    self.box = view.box

  def mk(self, o, d):
    v = self.kvm.view(o)
    self.vm._VIEW_DEPTH_SETTER(v, d)
    return v

  def raw(self, r):
    return V(r.get(), r.get_depth()) if isinstance(r, self.View) else r

  def obj(self, name, *a, **k):
    return getattr(self.kvm, name)(*a, **k)

  def kv(self, name, *a, **k):
    if name not in ('map', 'deep_map') and a and isinstance(a[0], self.View) and hasattr(self.View, name) and self.rng.random() < 0.5:
      return self.raw(getattr(a[0], name)(*a[1:], **k))  # the method of the same name
    return self.raw(getattr(self.kvm, name)(*a, **k))

  def op(self, name, method, via, a, b):
    if via:
      x, y = a, b
      return self.raw({'__eq__': lambda: x == y, '__ne__': lambda: x != y, '__lt__': lambda: x < y, '__le__': lambda: x <= y,
                       '__gt__': lambda: x > y, '__ge__': lambda: x >= y, '__and__': lambda: x & y, '__or__': lambda: x | y}[method]())
    return self.kv(name, a, b)

  def same_present(self, r, v):
    """deepcopy copies the mask object as well: compare it by position."""
    def sub(x, y):
      if y is self.P:
        return self.P
      if type(x) is type(y) and isinstance(x, (tuple, list)):
        return type(x)(sub(p, q) for p, q in zip(x, y))
      return x
    return V(sub(r.get(), v.get()), r.get_depth())


class Ref(Real):
  """Marks the reference side (inputs are V)."""

  def __init__(self, P):
    self.P = P
    self.View = V

  def mk(self, o, d):
    return V(o, d)


FOR = {'P22': ['group_by', 'collapse', 'select', 'inverse_select', 'round_trip'],
       'P23': [n for n in CASES]}


def one(c, kv, view, P, name, seed):
  R = Real(kv, view, P)
  R.rng = random.Random(seed)
  g1 = Gen(seed, P, R.mk)
  got = CASES[name](g1, R, P)
  ref = CASES[name](Gen(seed, P, lambda o, d: V(o, d)), Ref(P), P)
  try:
    want = ref[1]()
    kinds = None
  except Reject as e:
    want, kinds = None, e.kinds
  try:
    r = got[0]()
    exc = None
  except Exception as e:
    r, exc = None, e
  info = dict(case=name, seed=seed)
  c.ev(f'{name} seed={seed}: {canon(r, P)}' if exc is None else None, nontrivial=exc is None)
  if kinds is not None:
    if exc is None:
      c.fail(f'{c.prop}:{name}:accepts', f'{name}: a call that must be rejected succeeds', result=canon(r, P), **info)
    elif not isinstance(exc, kinds):
      c.fail(f'{c.prop}:{name}:kind', f'{name}: rejected by another kind of error', error=exc, expected=kinds, **info)
  elif exc is not None:
    c.fail(f'{c.prop}:{name}:raises', f'{name}: a valid call fails', error=exc, expected=canon(want, P), **info)
  elif canon(r, P) != canon(want, P):
    c.fail(f'{c.prop}:{name}:value', f'{name}: another result', got=canon(r, P), expected=canon(want, P), **info)
  # Items are changed as documented, and not at all otherwise.
  if len(got) > 2 and kinds is None:
    a, b = [canon(x.get(), P) for x in got[2]], [canon(x.o, P) for x in ref[2]]
    if a != b:
      c.fail(f'{c.prop}:{name}:items', f'{name}: the items are changed in another way', got=a, expected=b, **info)


def inputs_kept(c, kv, view, P, rng):
  """Operations that return views leave their inputs alone, and results do not change later."""
  R = Real(kv, view, P)
  items = [NS(a=1), None, NS(a=[1])]
  for d, o in ((1, tuple(items)), (2, (tuple(items), ())), (0, items)):
    v = R.mk(o, d)
    was = canon(o, P)
    for n, f in (('flatten', lambda: kv.flatten(v)), ('flatten2', lambda: kv.flatten(kv.flatten(v), 0, 5)), ('implode', lambda: kv.implode(v, -1)), ('select', lambda: kv.select(v, P) if d else None),
                 ('map', lambda: kv.map(lambda x: x, v)), ('expand', lambda: kv.expand_to(1, v)), ('clone', lambda: kv.deep_clone(v)),
                 ('group', lambda: kv.group_by(v, kv.map(lambda x: 1, v)) if d else None), ('eq', lambda: v == v)):
      r = f()
      if v.get() is not o or v.get_depth() != d or canon(o, P) != was:
        c.fail(f'{c.prop}:inputs:{n}', f'{n} changes its input', depth=d)
      if n == 'clone':
        for (_, x), (_, y) in zip(leaves(r.get(), d), leaves(o, d)):
          if x is y and x is not None:
            c.fail(f'{c.prop}:clone', 'deep_clone shares an item with the original')
      c.ev()
  # Falsy containers are no missing items.
  e = Bag([1, 2])
  one = R.mk((e, None), 1)
  for n, got, want in (('explode', lambda: kv.explode(one).get(), ((1, 2), ())),
                       ('slice', lambda: one[0:1].get(), ((1,), ())),
                       ('item', lambda: one[0].get(), (1, None)),
                       ('append', lambda: (kv.append(one, 3), list(e))[1], [1, 2, 3]),
                       ('set_item', lambda: (kv.set_item(one, 0, 9), list(e))[1], [9, 2, 3]),
                       ('coalesce', lambda: [x is e for x in (one | 5).get()], [True, False]),
                       ('attr', lambda: kv.get_attr(kv.view(NS(a=e)), 'a', 5).get() is e, True),
                       ('take', lambda: R.mk(((e, 4),), 2).take(0).get()[0] is e, True),
                       ('flatten', lambda: [x is e for x in kv.flatten(R.mk(((e,), (e, None)), 2)).get()], [True, True, False])):
    c.ev()
    r = got()
    if canon(r, P) != canon(want, P):
      c.fail(f'{c.prop}:falsy:{n}', f'{n} of a container that is false', got=r, expected=want)
  # Incomparable numbers.
  nan = float('nan')
  for op, f in CMP.items():
    for x in (nan, 1.0, float('inf')):
      for y in (nan, 1.0, 2):
        c.ev()
        if (getattr(kv, op)(R.mk((x,), 1), y).get()[0] is P) != f(x, y):
          c.fail(f'{c.prop}:{op}:nan', f'{op}: another result', left=x, right=y)
  # Many dimensions and many items.
  o, d = 'x', 40
  for _ in range(d):
    o = (o,)
  v = R.mk(o, d)
  if kv.flatten(v).get() != ('x',) or kv.flatten(v, 1, -1).get_depth() != 3 or kv.implode(v, -1).get() is not o or kv.expand_to('y', v).get_depth() != d:
    c.fail(f'{c.prop}:deep', 'a view of many dimensions')
  xs = tuple(tuple(range(i % 5)) for i in range(700))
  v = R.mk(xs, 2)
  if kv.flatten(v).get() != tuple(y for x in xs for y in x) or (v == v).get() != tuple(tuple(P for _ in x) for x in xs) \
      or kv.map(sum, v, ndim=1).get() != tuple(sum(x) for x in xs) or kv.expand_to(R.mk(tuple(range(700)), 1), v).get() != tuple(tuple(i for _ in x) for i, x in enumerate(xs)):
    c.fail(f'{c.prop}:long', 'a view of many items')
  # Shared containers are updated in order.
  shared = []
  v = R.mk((shared, shared), 1)
  kv.append(v, R.mk((1, 2), 1))
  kv.append(v, R.mk(((3, 4), (5,)), 2))
  kv.append(kv.view(shared), R.mk((6, 7), 1))
  if shared != [1, 2, 3, 4, 5, 6, 7]:
    c.fail(f'{c.prop}:append:order', 'append to a shared list is not in order', got=shared)
  o = NS()
  kv.set_attrs(R.mk((o, o), 1), a=R.mk((1, 2), 1))
  if o.a != 2:
    c.fail(f'{c.prop}:set_attrs:order', 'the last assignment does not win', got=o)
  d = {}
  kv.set_item(R.mk((d, d), 1), 'k', R.mk((1, 2), 1))
  if d != {'k': 2}:
    c.fail(f'{c.prop}:set_item:order', 'the last assignment does not win', got=d)
  try:
    view.View(1, 0, object())
    c.fail(f'{c.prop}:constructor', 'the constructor is public')
  except ValueError:
    pass
  for f, x in ((view.box, []), (view.box_and_unbox_scalar, []), (view.box_and_unbox_scalar, R.mk((1,), 1))):
    try:
      f(x)
      c.fail(f'{c.prop}:{f.__name__}', f'{f.__name__} accepts {x!r}')
    except ValueError:
      pass
  for x in (None, 1, 1.5, 'a', b'b', True, P):
    if view.box_and_unbox_scalar(x) is not x or view.box(x).get() is not x or view.box_and_unbox_scalar(kv.view(x)) is not x:
      c.fail(f'{c.prop}:box', f'boxing changes {x!r}')
  if kv.present is not P or kv.missing is not None:
    c.fail(f'{c.prop}:present', 'kv.present is another object')


class Odd:
  """Equal to everything of its class, not identical; unhashable variants excluded."""

  def __init__(self, k):
    self.k = k

  def __eq__(self, o):
    return isinstance(o, Odd) and o.k == self.k

  def __hash__(self):
    return hash(self.k)


class AnyEq:
  """Equal to everything (as some library objects are), never None."""

  def __eq__(self, o):
    return True

  def __hash__(self):
    return 7


class Bag(list):
  """A container that is false although it has items."""

  def __bool__(self):
    return False


class Node:
  pass


def namespaces(c, kv):
  """deep_map looks into custom types of the given namespace only."""
  import optree
  optree.register_pytree_node(Node, lambda n: ((n.x,), None), lambda _, ch: ('node', ch[0]), namespace='verif')
  n = Node()
  n.x = 3
  for f in (lambda ns: kv.view([n]).deep_map(lambda x: 7 if x == 3 else 0, namespace=ns).get(),
            lambda ns: kv.deep_map(lambda x: 7 if x == 3 else 0, kv.view([n]), namespace=ns).get()):
    if f('verif') != [('node', 7)] or f('') != [0]:
      c.fail(f'{c.prop}:deep_map:namespace', 'deep_map ignores the namespace', got=(f('verif'), f('')))


def odd_items(c, kv, view, P):
  """Items that are equal but not identical, falsy, or long runs."""
  R = Real(kv, view, P)
  a, b, e = Odd(1), Odd(1), Odd(2)
  r = kv.collapse(R.mk(((a, None, b), (a, e), (None,), (0, None), (False, 0), ('', '')), 2))
  if r.get()[0] is not a or r.get()[1:] != (None, None, 0, False, ''):
    c.fail(f'{c.prop}:collapse:odd', 'collapse of equal objects or falsy values', got=r.get())
  g = kv.group_by(R.mk((1, 2, 3, 4, 5), 1), R.mk((a, e, b, None, a), 1))
  if g.get() != ((1, 3, 5), (2,)):
    c.fail(f'{c.prop}:group_by:odd', 'groups of equal keys', got=g.get())
  g = kv.group_by(R.mk((0, '', False, None), 1), R.mk((0, 0, 0, 0), 1))
  if canon(g.get(), P) != canon(((0, '', False, None),), P):
    c.fail(f'{c.prop}:group_by:falsy', 'items of a group are dropped', got=g.get())
  g = kv.group_by(R.mk((1, 2, 3, 4), 1), R.mk((0, '', 0, ''), 1))
  if g.get() != ((1, 3), (2, 4)):
    c.fail(f'{c.prop}:group_by:falsykey', 'falsy keys', got=g.get())
  g = kv.group_by(R.mk((3, 1, 2, 10), 1), R.mk(('b', 'a', 'b', 'a'), 1), R.mk((2, 1, 1, 0), 1), sort=True)
  if g.get() != ((10,), (1,), (2,), (3,)):
    c.fail(f'{c.prop}:group_by:sort', 'groups are not sorted by the keys', got=g.get())
  g = kv.group_by(R.mk((5, {}, 'z', []), 1), R.mk((2, 1, 2, 1), 1), sort=True)
  if g.get() != (({}, []), (5, 'z')):
    c.fail(f'{c.prop}:group_by:sortitems', 'sorting looks at the items', got=g.get())
  q = AnyEq()
  g = kv.group_by(R.mk((1, 2, 3, 4), 1), R.mk((q, None, q, None), 1))
  if g.get() != ((1, 3),):
    c.fail(f'{c.prop}:group_by:anyeq', 'a key that is not None counts as missing', got=g.get())
  g = kv.group_by(R.mk((q, None), 1))
  if len(g.get()) != 1 or len(g.get()[0]) != 1:
    c.fail(f'{c.prop}:group_by:anyeq', 'an item that is not None counts as missing', got=g.get())
  for n, f in (('select', lambda: kv.select(R.mk((1, 2), 1), R.mk((q, P), 1))),
               ('select', lambda: kv.select(R.mk((1, 2), 1), R.mk(q, 0))),
               ('inverse_select', lambda: kv.inverse_select(R.mk((1, 2), 1), R.mk((q, P), 1)))):
    try:
      f()
      c.fail(f'{c.prop}:{n}:anyeq', f'{n}: a filter value that is only equal to present is accepted')
    except ValueError:
      pass
  if kv.collapse(R.mk((None, q, None), 1)).get() is not q:
    c.fail(f'{c.prop}:collapse:anyeq', 'the only item is not the collapsed value')
  n = 300
  xs = tuple(range(n))
  g = kv.group_by(R.mk(xs, 1), R.mk(tuple(i % 97 for i in xs), 1))
  if g.get() != tuple(tuple(range(k, n, 97)) for k in range(97)):
    c.fail(f'{c.prop}:group_by:long', 'groups of many items', got=g.get())
  if kv.collapse(R.mk((5,) * n + (None,) * n + (5,), 1)).get() != 5 or kv.collapse(R.mk((5,) * n + (6,), 1)).get() is not None:
    c.fail(f'{c.prop}:collapse:long', 'collapse of many items')
  m = tuple(P if i % 3 else None for i in range(n))
  s = kv.select(R.mk(xs, 1), R.mk(m, 1))
  if s.get() != tuple(i for i in xs if i % 3):
    c.fail(f'{c.prop}:select:long', 'select on many items')
  t = kv.inverse_select(s, R.mk(m, 1))
  if t.get() != tuple(i if i % 3 else None for i in xs):
    c.fail(f'{c.prop}:inverse_select:long', 'inverse_select on many items')
  for x in ((1, 2, 3), (1,), ()):
    try:
      kv.inverse_select(R.mk(x, 1), R.mk((P, None, P), 1))
      c.fail(f'{c.prop}:inverse_select:count', f'{len(x)} items for two places are accepted')
    except ValueError:
      pass
  c.ev()


def run(c):
  kv, view = load(c)
  P = kv.present
  odd_items(c, kv, view, P)
  if c.prop == 'P23':
    inputs_kept(c, kv, view, P, c.rng)
    namespaces(c, kv)
  names = FOR[c.prop]
  limit = 400000 if c.thorough else 30000
  for i in range(limit):
    if c.enough():
      break
    one(c, kv, view, P, names[i % len(names)], c.rng.randrange(1 << 40))
