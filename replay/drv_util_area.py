"""Executable contracts of file_io, kd_functools and dataclasses_util (P11-P14)."""

import collections
import collections.abc
import dataclasses
import functools
import glob
import itertools
import os
import shutil
import types
import typing
from typing import Any, Optional, Union

import common


def tree(d):
  out = {}
  for r, ds, fs in os.walk(d):
    for x in ds:
      p = os.path.join(r, x)
      out[os.path.relpath(p, d)] = None
    for x in fs:
      p = os.path.join(r, x)
      with open(p, 'rb') as f:
        out[os.path.relpath(p, d)] = f.read()
  return out


def sub(t, name):
  """The part of a tree at and below a name (as a tree with '' as its root)."""
  return {k[len(name):]: v for k, v in t.items() if k == name or k.startswith(name + '/')}


def p11(c):
  from koladata.file_io import fs_implementation as fsi
  fs = fsi.FileSystemInteraction()
  base = os.path.join(common.scratch(), 'p11')

  def build(state):
    shutil.rmtree(base, True)
    os.makedirs(base)
    for n, kind in state.items():
      p = os.path.join(base, n)
      if kind == 'file':
        with open(p, 'wb') as f:
          f.write(b'data of ' + n.encode())
      elif kind == 'empty':
        open(p, 'wb').close()
      elif kind == 'dir':
        os.makedirs(p)
      elif kind == 'fulldir':
        os.makedirs(p)
        with open(os.path.join(p, 'inner'), 'wb') as f:
          f.write(b'inner of ' + n.encode())

  kinds = ['none', 'file', 'empty', 'dir', 'fulldir']
  combos = list(itertools.product(kinds, kinds, kinds, [None, False, True], ['ab', 'aa']))
  c.rng.shuffle(combos)
  names = ['a', 'b', 'c']
  for ka, kb, kc, over, pair in combos:
    if c.enough():
      break
    state = dict(zip(names, (ka, kb, kc)))
    build(state)
    t0 = tree(base)
    old, new = pair
    args = [os.path.join(base, old), os.path.join(base, new)]
    kw = {} if over is None else {'overwrite': over}
    exc = None
    try:
      fs.rename(*args, **kw)
    except Exception as x:
      exc = x
    t1 = tree(base)
    case = dict(state=state, old=old, new=new, overwrite=over, exc=repr(exc), after=sorted(t1))
    c.ev(case)
    occ = state[new] != 'none'
    if exc is not None:
      if t1 != t0:
        c.fail('rename-failed-changed', 'a failed rename changed the file system', **case)
      possible = state[old] != 'none' and not (not over and occ)
      isd = lambda k: k in ('dir', 'fulldir')
      impossible = occ and (isd(state[old]) or isd(state[new]))
      if possible and not impossible:
        c.fail('rename-refused', 'a permitted rename failed', **case)
    else:
      if not over and occ:
        c.fail('rename-overwrote', 'rename without overwrite replaced an existing destination', **case)
      if state[old] == 'none':
        c.fail('rename-nothing', 'rename of a missing source succeeded', **case)
      want = {k: v for k, v in t0.items() if k.split('/')[0] not in (old, new)}
      for k, v in sub(t0, old).items():
        want[new + k] = v
      if t1 != want:
        c.fail('rename-result', 'the result of a rename is not the source at the destination',
               want=sorted(want), **case)
  # The other operations.
  for kind in kinds:
    for op in ('exists', 'is_dir', 'remove', 'make_dirs', 'glob', 'read', 'write'):
      build({'a': kind, 'b': 'file', 'a2': 'file'})
      p = os.path.join(base, 'a')
      t0 = tree(base)
      exc = r = None
      try:
        if op in ('read', 'write'):
          with fs.open(p, 'rb' if op == 'read' else 'wb') as f:
            r = f.read() if op == 'read' else f.write(b'new')
        elif op == 'glob':
          r = sorted(fs.glob(os.path.join(base, 'a*')))
        else:
          r = getattr(fs, op)(p)
      except Exception as x:
        exc = x
      t1 = tree(base)
      case = dict(kind=kind, op=op, exc=repr(exc), result=repr(r))
      c.ev(case)
      isd = kind in ('dir', 'fulldir')
      want, ok = dict(t0), exc is None
      if op == 'exists':
        ok = r is (kind != 'none')
      elif op == 'is_dir':
        ok = r is isd
      elif op == 'glob':
        ok = r == sorted(os.path.join(base, x) for x in ('a', 'a2') if x in t0)
      elif op == 'read':
        ok = (exc is None and r == t0['a']) if kind in ('file', 'empty') else exc is not None
      elif op == 'write':
        ok = (exc is None) == (not isd)
        if not isd:
          want['a'] = b'new'
      elif op == 'remove':
        ok = (exc is None) == (kind in ('file', 'empty'))
        if kind in ('file', 'empty'):
          want.pop('a')
      elif op == 'make_dirs':
        ok = (exc is None) == (kind not in ('file', 'empty'))
        if kind == 'none':
          want['a'] = None
      if not ok:
        c.fail('op-' + op, f'{op} gives a wrong answer', **case)
      if t1 != want:
        c.fail('op-tree-' + op, f'{op} changed the wrong entries', **case)
  build({})
  fs.make_dirs(os.path.join(base, 'x/y/z'))
  c.ev()
  if not os.path.isdir(os.path.join(base, 'x/y/z')):
    c.fail('make-dirs-nested', 'make_dirs does not create parents')
  # A path through a link: '..' is the parent of what the link points to.
  os.symlink(os.path.join(base, 'x/y'), os.path.join(base, 'link'))
  fs.make_dirs(os.path.join(base, 'link/../w'))
  c.ev()
  if not os.path.isdir(os.path.join(base, 'x/w')) or os.path.exists(os.path.join(base, 'w')):
    c.fail('make-dirs-link', 'make_dirs creates another directory than the one named')
  # Patterns mean what the glob module says.
  for n in ('x/.hidden', 'x/y/z/deep.kd', 'x/[a]', 'x/a', 'x/A', '.dot'):
    with open(os.path.join(base, n), 'w'):
      pass
  for pat in ('*', '**', '**/*', 'x/*', 'x/**', '.*', '*/*', 'x/[a]', 'x/[[]a]', 'x/?', '*/', 'x/y/z/deep.kd', 'nothing*', 'x/[!a]'):
    got = sorted(fs.glob(os.path.join(base, pat)))
    c.ev()
    want = sorted(glob.glob(os.path.join(base, pat)))
    if got != want:
      c.fail('glob-pattern', 'glob lists other files than the pattern names', pattern=pat, got=got, want=want)
  shutil.rmtree(base, True)


class Fn:
  """A callable with configurable hash/equality."""

  def __init__(self, kind='plain'):
    self.kind = kind

  def __call__(self):
    return None

  def __eq__(self, o):
    return self.kind == 'alleq' if isinstance(o, Fn) else NotImplemented

  def __hash__(self):
    if self.kind == 'unhashable':
      raise TypeError('unhashable')
    return 7


def p12(c):
  from koladata.util import kd_functools as kf

  def reference(f):
    """(result, finite)."""
    seen = []
    while hasattr(f, '__wrapped__') and callable(f.__wrapped__):
      if any(f is s for s in seen):
        return seen, False
      seen.append(f)
      f = f.__wrapped__
    return f, True

  kinds = ['func', 'lambda', 'class', 'plain', 'alleq', 'unhashable', 'partial', 'builtin']

  def mk(kind):
    if kind == 'func':
      def f():
        return 0
      return f
    if kind == 'lambda':
      return lambda: 0
    if kind == 'class':
      return type('C', (), {})
    if kind == 'partial':
      return functools.partial(mk('func'))
    if kind == 'builtin':
      return len
    return Fn(kind)

  falsy = type('Falsy', (Fn,), {'__bool__': lambda s: False, '__hash__': None})
  for n in itertools.chain(range(0, 40), [200, 3000], itertools.repeat(None, 3000)):
    if c.enough():
      return
    if n is None:
      n = c.rng.randint(0, 9)
    ks = [c.rng.choice(kinds[:-1]) for _ in range(n)] + [c.rng.choice(kinds)]
    chain = [mk(k) for k in ks]
    if c.rng.random() < .2 and n:
      chain[c.rng.randrange(n)] = falsy()
    for a, b in zip(chain, chain[1:]):
      a.__wrapped__ = b
    end = c.rng.random()
    last = chain[-1]
    if last is not len:
      if end < .25:
        last.__wrapped__ = c.rng.choice([None, 5, 'x', Ellipsis])  # not callable
      elif end < .45:
        last.__wrapped__ = c.rng.choice(chain)  # cycle
    want, finite = reference(chain[0])
    case = dict(kinds=ks[:12], n=n, finite=finite)
    c.ev(case, nontrivial=n > 0)
    try:
      r = kf.unwrap(chain[0])
    except Exception as x:
      c.fail('unwrap-raises', 'unwrap fails', exc=repr(x), **case)
      continue
    if finite and r is not want:
      c.fail('unwrap-end', 'unwrap does not return the innermost function', **case)
    if not finite and not any(r is x for x in want):
      c.fail('unwrap-cycle', 'unwrap returns an object outside the chain', **case)
  # Chains that are not kept in the attributes of an instance.
  made_anew = []

  class Fresh:
    """The wrapped function is made anew whenever it is asked for."""

    def __init__(self, n):
      self.n = n
      made_anew.append(self)  # (ids are not used twice)

    def __call__(self):
      return self.n

    @property
    def __wrapped__(self):
      if not self.n:
        raise AttributeError('__wrapped__')
      return Fresh(self.n - 1)

  class Lazy(Fresh):
    __wrapped__ = None

    def __getattribute__(self, a):
      if a == '__wrapped__':
        if not self.n:
          raise AttributeError(a)
        return Lazy(self.n - 1)
      return object.__getattribute__(self, a)

  for cls in (Fresh, Lazy):
    for n in list(range(12)) + [40, 300]:
      c.ev()
      try:
        r = kf.unwrap(cls(n))
      except Exception as x:
        c.fail('unwrap-raises', 'unwrap fails', exc=repr(x), kind=cls.__name__, n=n)
        continue
      if type(r) is not cls or r.n:
        c.fail('unwrap-end', 'unwrap does not return the innermost function', kind=cls.__name__, n=n, at=getattr(r, 'n', repr(r)))

  class Slot:
    __slots__ = ('__wrapped__',)

    def __call__(self):
      return 1

  end = mk('func')
  slot = Slot()
  slot.__wrapped__ = end
  klass = type('K', (), {'__wrapped__': staticmethod(end), '__call__': lambda self: 0})
  meth = type('M', (), {'m': lambda self: 0})
  meth.m.__wrapped__ = slot
  nocall = types.SimpleNamespace(__call__=lambda: 0)  # not callable: the attribute is not of the type
  stop = mk('func')
  stop.__wrapped__ = nocall
  for x, want in ((slot, end), (klass(), end), (klass, end), (meth().m, end), (Slot(), None), (stop, stop)):
    c.ev()
    try:
      r = kf.unwrap(x)
    except Exception as e:
      c.fail('unwrap-raises', 'unwrap fails', exc=repr(e), x=repr(x))
      continue
    if r is not (x if want is None else want):
      c.fail('unwrap-end', 'unwrap does not return the innermost function', x=repr(x), got=repr(r))


@dataclasses.dataclass
class Leaf:
  q: int = 0


@dataclasses.dataclass
class Gen:
  w: 'Leaf' = None


def annotations():
  A = typing.Any
  ns = types.SimpleNamespace
  prim = [int, str, float, bytes, bool, object, type(None), Leaf, ns, list, dict, tuple]
  out = list(prim) + [A, Leaf | None, Optional[int], Optional[Leaf], Union[None, Leaf], None | Leaf,
                      Union[None, A], Union[A, None], Union[None, int, str], Union[None, list[int]], Union[int, str], int | str, int | str | None, Union[int, str, None],
                      Optional[A], Optional[list[int]], list[Leaf] | None, Optional[ns],
                      list[int], list[Leaf], list[Leaf | None], list[Optional[int]], list[int | str],
                      list[A], list[Optional[A]], list[list[Leaf]], tuple[int, ...], tuple[Leaf, ...],
                      tuple[Leaf | None, ...], tuple[int], tuple[int, str], tuple[int, int, int], tuple[()],
                      typing.Tuple[int, ...], typing.Tuple[int, int], typing.Tuple,
                      typing.List[int], typing.List[Leaf], typing.List, typing.Sequence[int], typing.Sequence,
                      collections.abc.Sequence[Leaf], collections.abc.MutableSequence[int],
                      dict[int, Leaf], dict[Leaf, int], dict[int, A], dict[A, int], dict[str, Leaf | None],
                      dict[Optional[str], int], dict[int | str, int], dict[int, int | str],
                      typing.Dict[int, str], typing.Dict, typing.Mapping[int, Leaf], typing.Mapping,
                      collections.abc.Mapping[str, int], collections.OrderedDict[int, Leaf],
                      collections.defaultdict[int, str], collections.Counter[int], typing.Counter[str],
                      typing.Counter, collections.ChainMap[int, str], set[int], frozenset[Leaf], typing.Set[int],
                      typing.Callable[[int], int], typing.Callable, collections.deque[int], typing.Deque,
                      typing.Literal[1], typing.Annotated[int, 3], type[Leaf], typing.Type, typing.Iterable[int],
                      Gen, typing.Union[Gen, None], typing.TypeVar('T'), typing.ClassVar[int]]
  return out


def ref_decay(t):
  if t is Any:
    return (None, True)
  if not (typing.get_origin(t) is Union or isinstance(t, types.UnionType)):
    return (t, False)
  args = typing.get_args(t)
  if len(args) != 2 or sum(a is type(None) for a in args) != 1:
    return ValueError
  u = args[0] if args[1] is type(None) else args[1]
  return (None if u is Any else u, True)


def ref_field(obj, attr, prim):
  if obj is None:
    return (None, True)
  if obj is types.SimpleNamespace:
    return (None if prim else obj, True)
  if dataclasses.is_dataclass(obj):
    t = typing.get_type_hints(obj).get(attr)
    if t is None:
      return None
    if dataclasses.is_dataclass(t):
      return (t, False)
    d = ref_decay(t)
    if d is ValueError or d[1]:
      return d
    if isinstance(t, types.GenericAlias) or t is types.SimpleNamespace or prim:
      return d
    return ValueError
  o, args = typing.get_origin(obj), typing.get_args(obj)
  if not o:
    return ValueError
  isseq = isinstance(o, type) and issubclass(o, collections.abc.Sequence)
  ismap = isinstance(o, type) and issubclass(o, collections.abc.Mapping)
  if attr == '__items__':
    if not isseq or not args or (o is tuple and (len(args) != 2 or args[1] is not Ellipsis)):
      return ValueError
    return ref_decay(args[0])
  if ismap:
    if attr == '__keys__':
      return ref_decay(args[0]) if args else ValueError
    return ref_decay(args[1]) if len(args) == 2 else ValueError
  return ValueError


def p13(c):
  from koladata.base.py_conversions import dataclasses_util as du
  anns = annotations()

  def outcome(f, *a):
    try:
      return f(*a)
    except ValueError:
      return ValueError
    except Exception as x:
      return x

  def same(r, want):
    if r is ValueError or want is ValueError or r is None or want is None:
      return r is want
    return (isinstance(r, tuple) and len(r) == 2
            and (r[0] is want[0] or r[0] == want[0]) and type(r[1]) is bool and r[1] == want[1])

  for t in anns:
    r, want = outcome(du.maybe_decay_optional, t), ref_decay(t)
    c.ev((str(t), str(r)))
    if not same(r, want):
      c.fail('decay', 'wrong answer about an optional type', type=str(t), got=repr(r), want=repr(want))
  shared = {}
  attrs = ['__items__', '__keys__', '__values__', 'x', 'a', '', '__x', 'items', '__len__']
  for t in anns + [None]:
    for attr in attrs:
      for prim in (True, False):
        for cache in ({}, shared):
          r, want = outcome(du.get_class_field_type, t, attr, prim, cache), ref_field(t, attr, prim)
          c.ev()
          if not same(r, want):
            c.fail('container', 'wrong field type', type=str(t), attr=attr, prim=prim, got=repr(r), want=repr(want))
  made = []
  for i, t in enumerate(anns):
    if typing.get_origin(t) is typing.ClassVar:
      continue
    made.append((dataclasses.make_dataclass(f'D{i}', [('a', t), ('b', int), ('__x', t), ('_y', t),
                                                      ('__items__', t), ('__keys__', int)]), t))
    # Same name, other type: the cache must not mix them up.
    made.append((dataclasses.make_dataclass('D', [('a', t)]), t))
  for rounds in range(2):
    for cls, t in made:
      for attr in ('a', 'b', 'zz', '__items__', '__keys__', '__values__', '__x', '_y', 'a'):
        for prim in (True, False):
          r, want = outcome(du.get_class_field_type, cls, attr, prim, shared), ref_field(cls, attr, prim)
          c.ev()
          if not same(r, want):
            c.fail('dataclass', 'wrong field type', cls=cls.__name__, ann=str(t), attr=attr, prim=prim,
                   got=repr(r), want=repr(want), round=rounds)
  # The same names, another meaning: one cache, asked in turn.
  same_name = [cls for cls, _ in made if cls.__name__ == 'D']
  twins = {}
  for rounds in range(2):
    for cls in c.rng.sample(same_name, len(same_name)):
      for prim in (True, False):
        r, want = outcome(du.get_class_field_type, cls, 'a', prim, twins), ref_field(cls, 'a', prim)
        c.ev()
        if not same(r, want):
          c.fail('dataclass', 'wrong field type', cls='D', ann=str(typing.get_type_hints(cls)), prim=prim, got=repr(r), want=repr(want))
  for k, v in shared.items():
    c.ev()
    if v != typing.get_type_hints(k):
      c.fail('cache', 'the cache holds wrong type hints', cls=str(k))


def p14(c):
  from koladata.base.py_conversions import dataclasses_util as du

  @dataclasses.dataclass
  class AB:
    a: Any = None
    b: Any = None

  @dataclasses.dataclass
  class BA:
    b: Any = None
    a: Any = None

  @dataclasses.dataclass
  class Custom:
    a: Any = None

    def __eq__(self, o):
      raise RuntimeError('custom equality must not matter')

  vals = [None, 0, 1, 1.0, True, '', 'x', (1, 2), [1], {'a': 1}, {'a': [1, {'b': 2}]}]
  names_sets = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'b', 'cc'], ['x%d' % i for i in range(12)]]
  objs = []
  for names in names_sets:
    for seq in (names, tuple(names)):
      cls = du.make_dataclass('Obj', seq)
      c.ev()
      if not dataclasses.is_dataclass(cls) or cls.__name__ != 'Obj':
        c.fail('make', 'not a dataclass of the requested name', names=names)
      if [f.name for f in dataclasses.fields(cls)] != names:
        c.fail('make-fields', 'fields differ from the names', names=names)
      if any(getattr(cls(), n) is not None for n in names):
        c.fail('make-default', 'fields do not default to None', names=names)
      for _ in range(3):
        kw = {n: c.rng.choice(vals) for n in names if c.rng.random() < .7}
        o = cls(**kw)
        objs.append((o, {n: kw.get(n) for n in names}))
        r = du.fields_names_and_values(o)
        c.ev()
        if r != [(n, kw.get(n)) for n in names] or not all(x[1] is kw.get(x[0]) for x in r):
          c.fail('pairs', 'pairs differ from the fields', names=names, got=repr(r))
  @dataclasses.dataclass
  class AB2:
    a: Any = None
    b: Any = None

  @dataclasses.dataclass(slots=True)
  class Slot:
    a: Any = None
    b: Any = None

  nest = du.make_dataclass('N', ['a'])
  more = AB(1, 2)
  more.other = 3
  own = nest(a=1)
  own.other = 3
  for x in (nest(a=AB2(1, 2)), nest(a=Slot(1, 2)), nest(a=[AB2(1, 2)]), nest(a={'k': AB2()}), nest(a=1), own, more, Slot(1, 2), Slot(),
            du.make_dataclass('O', ['a', 'b'])(1, 2), nest(a=nest(a=AB(1, 2))), nest(a=nest(a=Slot(1, 2)))):
    objs.append((x, dataclasses.asdict(x)))
  for x in (AB(1, 2), BA(2, 1), AB(), Custom(1), nest(a=AB(1, 2)), nest(a=[AB(1, 2)]), nest(a={'k': AB()})):
    objs.append((x, dataclasses.asdict(x)))
  for o, d in list(objs):
    if isinstance(o, (AB, BA, Custom, AB2, Slot)):
      continue
    for p, e in objs:
      if isinstance(p, Custom) and o == 0:
        pass
      c.ev()
      try:
        r, n = o == p, o != p
      except Exception as x:
        c.fail('eq-raises', 'comparison fails', x=repr(o), y=repr(p), exc=repr(x))
        continue
      want = dataclasses.asdict(o) == dataclasses.asdict(p)
      if r is not want and r != want or n == r:
        c.fail('eq', 'equality differs from the equality of the field dictionaries', x=repr(o), y=repr(p), got=r, want=want)
    for p in (None, 0, 'x', {}, {'a': 1}, dict(d), (), list(d.items()), object(), type(o), AB, int, types.SimpleNamespace(**{k: v for k, v in d.items()})):
      c.ev()
      try:
        r = o == p
      except Exception as x:
        c.fail('eq-raises-other', 'comparison with another object fails', x=repr(o), y=repr(p), exc=repr(x))
        continue
      if r:
        c.fail('eq-other', 'equal to an object that is not a dataclass instance', x=repr(o), y=repr(p))
  for kw in ({}, {'_x': 1, 'a': 2, '__y': None}, {'p': 1}, {'q': None, 'a': [1]}, {f'k{i}': i for i in range(15)}):
    ns = types.SimpleNamespace(**kw)
    c.ev()
    if du.fields_names_and_values(ns) != list(kw.items()):
      c.fail('namespace', 'namespace pairs differ', kw=repr(kw))
  for x in (None, 0, '', 'abc', [], {}, {'a': 1}, object(), int, (1,), lambda: 0, collections.namedtuple('T', 'a')(1)):
    c.ev()
    if du.fields_names_and_values(x) is not None:
      c.fail('other', 'an object without fields lists fields', x=repr(x))

  @dataclasses.dataclass
  class Falsy:
    a: Any = None

    def __bool__(self):
      return False

    def __len__(self):
      return 0

  @dataclasses.dataclass
  class Sub(AB):
    z: Any = 5

  @dataclasses.dataclass
  class Kw:
    a: Any = dataclasses.field(default=1, kw_only=True)
    b: Any = 2
    z: Any = dataclasses.field(default=3, init=False, repr=False, compare=False)

  @dataclasses.dataclass(slots=True)
  class Slots:
    b: Any = 1
    a: Any = 2

  @dataclasses.dataclass(frozen=True)
  class Frozen:
    b: Any = 1
    _a: Any = None
    __c: Any = 4

  for o, want in ((Kw(), [('a', 1), ('b', 2), ('z', 3)]), (Slots(), [('b', 1), ('a', 2)]),
                  (Frozen(), [(f.name, getattr(Frozen(), f.name)) for f in dataclasses.fields(Frozen)])):
    c.ev()
    if du.fields_names_and_values(o) != want:
      c.fail('fields3', 'pairs differ from the fields', x=repr(o), got=repr(du.fields_names_and_values(o)))
  extra = AB(1, 2)
  extra.other = 3
  c.ev()
  if du.fields_names_and_values(extra) != [('a', 1), ('b', 2)]:
    c.fail('fields4', 'attributes that are not fields are listed')
  for o, want in ((Falsy(3), [('a', 3)]), (Sub(1, 2), [('a', 1), ('b', 2), ('z', 5)]), (AB(0, ''), [('a', 0), ('b', '')])):
    c.ev()
    if du.fields_names_and_values(o) != want:
      c.fail('fields2', 'pairs differ from the fields', x=repr(type(o)))


def run(c):
  {'P11': p11, 'P12': p12, 'P13': p13, 'P14': p14}[c.prop](c)
