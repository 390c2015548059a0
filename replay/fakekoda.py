"""A miniature of Koda's data model, enough for the managed slices of ext/storage.

A bag is an immutable mapping of facts:
  (id, 'a', name) -> value      attribute of an entity
  (id, 'list')    -> tuple      items of a list
  (id, 'dict', k) -> value      entry of a dict
  (sid, 's', key) -> schema     attribute of a schema (`__items__`, `__keys__`, `__values__` for lists and dicts)
Values are Python primitives, Ids, schemas or None.
"""

import itertools
import sys
import types

import common
import fakekd

_ids = itertools.count(1)


class Refused(ValueError):
  """What kd itself refuses, too: no value of the model is missing here."""


class Id:
  """An item id (equal ids are the same after pickling)."""

  def __init__(self, text=None):
    self.text = text or f'id{next(_ids):04d}'

  def __eq__(self, o):
    return isinstance(o, Id) and o.text == self.text

  def __hash__(self):
    return hash(('Id', self.text))

  def __repr__(self):
    return self.text


class Sch:
  """A schema value: a primitive name or an id."""

  def __init__(self, what):
    self.what = what

  def __eq__(self, o):
    return isinstance(o, Sch) and o.what == self.what

  def __hash__(self):
    return hash(('Sch', self.what))

  def __repr__(self):
    return str(self.what)

  @property
  def prim(self):
    return isinstance(self.what, str)


SCHEMA, OBJECT, ITEMID, NONE, MASK = (Sch(x) for x in ('SCHEMA', 'OBJECT', 'ITEMID', 'NONE', 'MASK'))
PRIMITIVES = ['INT32', 'INT64', 'STRING', 'FLOAT32', 'FLOAT64', 'BOOLEAN', 'BYTES', 'MASK', 'EXPR']


class Bag(fakekd.FakeBag):

  def merge_fallbacks(self):
    return self

  def get_approx_byte_size(self):
    return 8 * len(self.data) + 8


def updated(*bags):
  d = {}
  for b in bags:
    d.update(b.data)
  return Bag(d)


def enriched(*bags):
  return updated(*reversed(bags))


def facts(b):
  return b.data if b is not None else {}


class DS:
  """A slice: flat values, a schema and a bag; `item` for a scalar."""

  def __init__(self, values, schema, bag=None, item=False):
    self.v = list(values)
    self.s = schema
    self.b = bag
    self.item = item

  def like(self, values=None, schema=None, bag=None):
    return DS(self.v if values is None else values, schema or self.s, bag if bag is not None else self.b, self.item)

  # comparison and truth of items
  def __eq__(self, o):
    return isinstance(o, DS) and self.v == o.v and self.s == o.s

  def __ne__(self, o):
    return not self == o

  __hash__ = None

  def __bool__(self):
    return bool(self.v[0])

  def __str__(self):
    return str(self.v[0]) if self.item else str(self.v)

  __repr__ = __str__

  def to_py(self):
    x = self.v[0] if self.item else None
    if not self.item:
      return list(self.v)
    if isinstance(x, Id) and (x, 'list') in facts(self.b):
      return list(self.b.data[(x, 'list')])
    return x

  # structure
  def get_schema(self):
    return DS([self.s], SCHEMA, None if self.s.prim else self.b, True)

  def get_bag(self):
    return self.b

  def with_bag(self, b):
    return DS(self.v, self.s, b, self.item)

  def no_bag(self):
    return DS(self.v, self.s, None, self.item)

  def freeze_bag(self):
    return self

  def updated(self, *bags):
    return self.with_bag(updated(self.b or Bag({}), *bags))

  def enriched(self, *bags):
    return self.with_bag(enriched(self.b or Bag({}), *bags))

  def stub(self):
    return self.with_bag(Bag({}))

  def is_empty(self):
    return all(x is None for x in self.v)

  def is_primitive(self):
    return self.s.prim

  def flatten(self):
    return DS(self.v, self.s, self.b, False)

  def extract(self):
    if self.b is None:
      raise Refused('no bag')
    return self.with_bag(reach(self.v, self.s, self.b))

  def get_itemid(self):
    if self.s == SCHEMA:
      if any(x is not None and x.prim for x in self.v):
        raise Refused('no item id')
      return DS([x and x.what for x in self.v], ITEMID, self.b, self.item)
    return DS([x if isinstance(x, Id) else None for x in self.v], ITEMID, self.b, self.item)

  def __and__(self, mask):
    return self.like([x if m else None for x, m in zip(self.v, mask.v)])

  def __invert__(self):
    return self.like([None if x else True for x in self.v])

  # schemas (self is a schema item)
  def key(self, k):
    return facts(self.b).get((self.v[0].what, 's', k))

  def is_list_schema(self):
    return self.key('__items__') is not None

  def is_dict_schema(self):
    return self.key('__keys__') is not None

  def is_entity_schema(self):
    return self.is_struct_schema() and not self.is_list_schema() and not self.is_dict_schema()

  def is_struct_schema(self):
    return not self.v[0].prim

  def is_primitive_schema(self):
    return self.v[0].prim and self.v[0].what in PRIMITIVES

  def sub(self, k):
    r = self.key(k)
    if r is None:
      raise Refused(f'no attribute {k}')
    return DS([r], SCHEMA, None if r.prim else self.b, True)

  def get_item_schema(self):
    return self.sub('__items__')

  def get_key_schema(self):
    return self.sub('__keys__')

  def get_value_schema(self):
    return self.sub('__values__')

  # data
  def get_attr(self, name):
    if self.s == SCHEMA:
      return self.sub(name)
    t = facts(self.b).get((self.s.what, 's', name))
    if t is None:
      raise Refused(f'no attribute {name}')
    return DS([facts(self.b).get((x, 'a', name)) for x in self.v], t, self.b, self.item)

  def schema_sub(self, k):
    return facts(self.b).get((self.s.what, 's', k), NONE)

  def explode(self):
    if (self.s.what, 's', '__items__') not in facts(self.b):
      raise Refused('not a list')
    return DS([y for x in self.v for y in facts(self.b).get((x, 'list'), ())], self.schema_sub('__items__'), self.b)

  def entries(self):
    if not {(self.s.what, 's', '__keys__'), (self.s.what, 's', '__values__')} & set(facts(self.b)):
      raise Refused('not a dict')
    return [(k[2], y) for x in self.v for k, y in facts(self.b).items()
            if k[0] == x and k[1] == 'dict' and x is not None]

  def get_keys(self):
    return DS([k for k, _ in self.entries()], self.schema_sub('__keys__'), self.b)

  def get_values(self):
    return DS([x for _, x in self.entries()], self.schema_sub('__values__'), self.b)

  def __getitem__(self, k):
    """Lookup in a dict item (of the index)."""
    v = facts(self.b).get((self.v[0], 'dict', k))
    return DS([v], Sch('list'), self.b, True)

  def with_attrs(self, **attrs):
    b = self.b or Bag({})
    for n, x in attrs.items():
      b = updated(b, attrs_bag(self, n, x), Bag({(self.s.what, 's', n): x.s}))
    return self.with_bag(b)


def attrs_bag(ds, n, x):
  if ds.s == SCHEMA:
    return updated(x.b or Bag({}), Bag({(y.what, 's', n): x.v[0] for y in ds.v if y is not None}))
  xs = x.v * len(ds.v) if x.item and not ds.item else x.v
  return updated(x.b or Bag({}), Bag({(y, 'a', n): z for y, z in zip(ds.v, xs) if y is not None}))


def attrs(ds, **kw):
  b = Bag({})
  for n, x in kw.items():
    b = updated(b, attrs_bag(ds, n, x))
  return b


def dir_(item):
  """Attribute names of a schema or of data."""
  s = item.v[0].what if item.s == SCHEMA else item.s.what
  return sorted(k[2] for k in facts(item.b) if k[0] == s and k[1] == 's' and not k[2].startswith('__') )


def reach(values, schema, bag):
  """The facts reachable from the values along their schema."""
  f, out, seen = facts(bag), {}, set()
  todo = [(v, schema) for v in (values or [None])]
  index = {}
  for k in f:
    index.setdefault(k[0], []).append(k)
  while todo:
    v, s = todo.pop()
    if s == SCHEMA:
      if v is not None:
        todo.append((None, v))
      continue
    if (v, s) in seen or s.prim:
      continue
    seen.add((v, s))
    for k in index.get(s.what, ()):
      if k[1] != 's':
        continue
      out[k] = f[k]
      todo.append((None, f[k]))
      if v is None:
        continue
      if k[2] == '__items__' and (v, 'list') in f:
        out[(v, 'list')] = f[(v, 'list')]
        todo += [(x, f[k]) for x in f[(v, 'list')]]
      elif k[2] in ('__keys__', '__values__'):
        for d in index.get(v, ()):
          if d[1] == 'dict':
            out[d] = f[d]
            todo.append((d[2] if k[2] == '__keys__' else f[d], f[k]))
      elif (v, 'a', k[2]) in f:
        out[(v, 'a', k[2])] = f[(v, 'a', k[2])]
        todo.append((f[(v, 'a', k[2])], f[k]))
  return Bag({k: out[k] for k in f if k in out})


class Seen:
  """kd.mutable_bag().dict(): item id -> mask."""

  def __init__(self, **kw):
    self.d = {}

  def __getitem__(self, ds):
    return DS([self.d.get(x) for x in ds.v], MASK, None, ds.item)

  def __setitem__(self, ds, x):
    for i in ds.v:
      if i is not None:
        self.d[i] = x.v[0]


# what is used of stubs_and_minimal_bags_lib


def schema_stub(s):
  return s.with_bag(Bag({(s.v[0].what, 's', '__stub__'): SCHEMA} if not s.v[0].prim else {}))


def list_bag(ds):
  d = {(x, 'list'): facts(ds.b)[(x, 'list')] for x in ds.v if (x, 'list') in facts(ds.b)}
  return Bag(d) if d else None


def dict_bag(ds):
  d = {k: v for k, v in facts(ds.b).items() if k[1] == 'dict' and k[0] in ds.v}
  return Bag(d) if d else None


def attr_bag(ds, n):
  d = {(x, 'a', n): facts(ds.b)[(x, 'a', n)] for x in ds.v if (x, 'a', n) in facts(ds.b)}
  return Bag(d) if d else None


def list_(xs, item_schema=None):
  i = Id()
  return DS([i], Sch('list'), Bag({(i, 'list'): tuple(xs)}), True)


def dict__(d):
  i = Id()
  b = Bag({})
  for k, v in d.items():
    b = updated(b, v.b or Bag({}), Bag({(i, 'dict', k): v.v[0]}))
  return DS([i], Sch('dict'), b, True)


def dict_update(d, e):
  x = e.v[0]
  return Bag({(d.v[0], 'dict', k[2]) if k[0] == x and k[1] == 'dict' else k: v for k, v in facts(e.b).items()})


def list_append_update(l, xs):
  return Bag({(l.v[0], 'list'): facts(l.b).get((l.v[0], 'list'), ()) + tuple(xs.v)})


def slice_(xs, schema=None):
  return DS(xs, Sch('STRING'))


def new(**kw):
  """An entity item with a schema of its own."""
  sid, i = Sch(Id()), Id()
  e = DS([i], sid, Bag({}), True)
  return e.with_attrs(**kw) if kw else e


def item(x, prim):
  return DS([x], Sch(prim), None, True)


def install():
  kd = fakekd.install()
  const = lambda s: DS([s], SCHEMA, None, True)
  kd.SCHEMA, kd.OBJECT, kd.ITEMID, kd.NONE, kd.MASK = map(const, (SCHEMA, OBJECT, ITEMID, NONE, MASK))
  kd.STRING = const(Sch('STRING'))
  kd.types = types.SimpleNamespace(DataBag=Bag, DataSlice=DS, DataItem=DS, SchemaItem=DS, DictItem=DS, ListItem=DS)
  kd.bag = lambda: Bag({})
  kd.bags = types.SimpleNamespace(updated=updated, enriched=enriched)
  kd.is_item = lambda x: x.item
  kd.present = DS([True], MASK, None, True)
  kd.encode_itemid = lambda i: item(repr(i.v[0]), 'STRING')
  kd.dir = dir_
  kd.has_attr = lambda s, n: DS([s.key(n) is not None], MASK, None, True)
  kd.any = lambda x: any(x.v)
  kd.has = lambda x: x.like([y is not None for y in x.v])
  kd.attrs = attrs
  kd.schema = types.SimpleNamespace(is_entity_schema=lambda s: s.is_entity_schema())
  kd.mutable_bag = lambda: types.SimpleNamespace(dict=Seen)
  kd.dict, kd.list, kd.slice, kd.new = dict__, list_, slice_, new
  kd.dict_update, kd.list_append_update = dict_update, list_append_update
  import koladata
  import koladata.ext.storage as st
  m = types.ModuleType('koladata.ext.storage.stubs_and_minimal_bags_lib')
  m.schema_stub = schema_stub
  m.minimal_bag_associating_list_with_its_items = list_bag
  m.minimal_bag_associating_dict_with_its_keys_and_values = dict_bag
  m.minimal_bag_associating_entity_with_its_attr_value = attr_bag
  sys.modules[m.__name__] = m
  st.stubs_and_minimal_bags_lib = m
  return kd
