"""Executable contracts of SchemaHelper and DataSliceManager (P24..P29).

The real classes run over `fakekoda`, a miniature of Koda's data model, and an
in-memory file system.  The oracle keeps one bag of facts per revision: what the
whole slice is after each update.
"""

import concurrent.futures
import datetime
import itertools
import os
import re
import sys
import types

import common
import fakekd
import fakekoda as fk
from fakekoda import DS, Bag, Id, Sch

SEC = 'py/koladata/ext/storage/'


def setup():
  common.gen_protos(SEC + 'data_bag_manager_metadata.proto',
                    SEC + 'data_slice_manager_metadata.proto',
                    SEC + 'composite_initial_data_manager_metadata.proto')
  kd = fk.install()
  concurrent.futures.ThreadPoolExecutor = fakekd.LazyExecutor
  concurrent.futures.as_completed = lambda fs, timeout=None: list(fs)
  concurrent.futures.wait = lambda fs, *a, **k: ([f.run() for f in fs], (set(fs), set()))[1]
  return kd


def clean(facts):
  return {k: v for k, v in facts.items() if k[2:] != ('__stub__',)}


def reach(v, s, b):
  return clean(fk.reach(v, s, b).data)


def stable(x):
  return sorted(map(repr, x))


class Types:
  """Type specs: a primitive name, ('e', sid), ('l', sid, t) or ('d', sid, k, v)."""

  def __init__(self, rng, names, by_name=False, rec=True):
    self.rng = rng
    self.names = names
    self.attrs = {}
    self.by_name = {} if by_name else None
    self.rec = rec

  def new(self, depth):
    r = self.rng.random()
    if depth <= 0 or r < .35:
      return self.rng.choice(['INT32', 'STRING', 'FLOAT32', 'ITEMID'])
    if r < .7:
      if self.attrs and self.rec and self.rng.random() < .4:
        return ('e', self.rng.choice(list(self.attrs)))
      sid = Id()
      self.attrs[sid] = {}
      for n in self.rng.sample(self.names, min(len(self.names), self.rng.randrange(0, 4))):
        self.attrs[sid][n] = self.attr_type(n, depth - 1)
      return ('e', sid)
    if r < .85:
      return ('l', Id(), self.new(depth - 1))
    k = self.rng.choice(['STRING', 'INT32', 'e'])
    return ('d', Id(), self.new(depth - 1) if k == 'e' else k, self.new(depth - 1))

  def attr_type(self, n, depth):
    if self.by_name is None:
      return self.new(depth)
    if n not in self.by_name:
      names = self.names
      self.names = names[names.index(n) + 1:] if n in names else []
      self.by_name[n] = self.new(depth)
      self.names = names
    return self.by_name[n]

  def sch(self, t):
    return Sch(t) if isinstance(t, str) else Sch(t[1])

  def schema_facts(self, t, out=None):
    out = {} if out is None else out
    if isinstance(t, str):
      return out
    keys = ({n: x for n, x in self.attrs[t[1]].items()} if t[0] == 'e' else
            {'__items__': t[2]} if t[0] == 'l' else {'__keys__': t[2], '__values__': t[3]})
    for n, x in keys.items():
      if (t[1], 's', n) not in out:
        out[(t[1], 's', n)] = self.sch(x)
        self.schema_facts(x, out)
    return out

  def schema(self, t):
    return DS([self.sch(t)], fk.SCHEMA, None if isinstance(t, str) else Bag(self.schema_facts(t)), True)

  def value(self, t, facts, depth, pool):
    rng = self.rng
    if t == 'ITEMID':
      return rng.choice([None] + list(pool.get('ids', [Id()])))
    if isinstance(t, str):
      return rng.choice([None, rng.randrange(100), rng.randrange(100)]) if t != 'STRING' else f's{rng.randrange(99)}'
    olds = pool.setdefault(t[1], [])
    if olds and (rng.random() < .3 or depth <= 0):
      return rng.choice(olds)
    dense = getattr(self, 'dense', 0)
    if depth <= 0 or (rng.random() < .08 and not dense):
      return None
    i = Id()
    olds.append(i)
    if t[0] == 'e':
      for n, x in self.attrs[t[1]].items():
        y = self.value(x, facts, depth - 1, pool)
        if y is not None:
          facts[(i, 'a', n)] = y
    elif t[0] == 'l':
      facts[(i, 'list')] = tuple(self.value(t[2], facts, depth - 1, pool) for _ in range(dense or rng.randrange(0, 4)))
    else:
      for _ in range(dense or rng.randrange(0, 4)):
        k = self.value(t[2], facts, depth - 1, pool)
        if k is not None:
          facts[(i, 'dict', k)] = self.value(t[3], facts, depth - 1, pool)
    return i

  def wide(self, n):
    """An entity schema with many attributes of all kinds."""
    sid = Id()
    self.attrs[sid] = {}
    for j in range(n):
      x = Id()
      if j % 4 == 1:
        self.attrs[x] = {'x': 'INT32'}
      self.attrs[sid][f'w{j}'] = ['INT32', ('e', x), ('l', x, 'INT32'), ('d', x, 'STRING', 'INT32')][j % 4]
    return ('e', sid)

  def deep(self, n):
    """A chain of n entities, lists and dicts."""
    t = 'INT32'
    for j in range(n):
      x = Id()
      if j % 3 == 2:
        self.attrs[x] = {'next': t, 'y': 'STRING'}
      t = [('l', x, t), ('d', x, 'STRING', t), ('e', x)][j % 3]
    return t

  def slice(self, t, n, pool, depth=3):
    """A slice of n values of the type (an item if n is None) with its own bag."""
    facts = {}
    v = [self.value(t, facts, depth, pool) for _ in range(1 if n is None else n)]
    if isinstance(t, str):
      return DS(v, Sch(t), None, n is None)
    return DS(v, self.sch(t), Bag({**self.schema_facts(t), **facts}), n is None)


class World:
  """Spec: the bag of facts and the history, one entry per revision."""

  def __init__(self, root, bag, rev):
    self.root = root
    self.bags = [bag]
    self.revs = [rev]

  def full(self, i=-1):
    return DS(self.root.v, self.root.s, self.bags[i], True)

  def at(self, i):
    w = World(self.root, None, None)
    n = i if i >= 0 else len(self.bags) + i
    w.bags, w.revs = self.bags[:n + 1], self.revs[:n + 1]
    return w

  def grow(self, w, bag, rev):
    self.bags, self.revs = w.bags + [bag], w.revs + [rev]
    return self

  def branch(self, i, parent_dir, description):
    n = i if i >= 0 else len(self.bags) + i
    return World(self.root, self.bags[n], ('branch', description or '', parent_dir, n))


class H:

  def __init__(self, c):
    self.c = c
    self.rng = c.rng
    self.kd = setup()
    self.t0 = datetime.datetime.now(datetime.timezone.utc)
    from koladata.ext.storage import bare_root_initial_data_manager as br
    from koladata.ext.storage import composite_initial_data_manager as comp
    from koladata.ext.storage import data_slice_manager as dsm
    from koladata.ext.storage import data_slice_path as path
    from koladata.ext.storage import global_cache_lib
    from koladata.ext.storage import schema_helper as sh
    self.br, self.comp, self.dsm, self.path, self.sh = br, comp, dsm, path, sh
    self.M = dsm.DataSliceManager
    self.cache = global_cache_lib.get_global_cache()
    fakekd.LazyExecutor.order = 'early'

  def expect(self, key, what, got, want, **kw):
    self.c.ev()
    if got != want:
      self.c.fail(key, what, got=got, want=want, **kw)

  def refused(self, key, what, f, exc=ValueError, **kw):
    self.c.ev()
    try:
      r = f()
    except exc:
      return True
    self.c.fail(key, what, result=repr(r)[:300], **kw)
    return False

  # -- the spec's view of schemas ---------------------------------------------

  def children(self, facts, s):
    """[(action, child schema)] of a schema."""
    p = self.path
    if s.prim:
      return []
    ks = {k[2]: v for k, v in facts.items() if k[0] == s.what and k[1] == 's'}
    if '__items__' in ks:
      return [(p.ListExplode(), ks['__items__'])]
    if '__keys__' in ks:
      return [(p.DictGetKeys(), ks['__keys__']), (p.DictGetValues(), ks['__values__'])]
    return [(p.GetAttr(n), ks[n]) for n in sorted(ks) if not n.startswith('__')]

  def name(self, parent, action, s):
    if not s.prim:
      return repr(s.what)
    return (f'{repr(parent.what) if parent is not None else ""}'
            f'{action.get_subschema_operation() if action is not None else "."}:{s.what}')

  def graph(self, facts, s, parent=None, action=None):
    """(name -> set of child names, name -> schema, (parent name, name) -> edges)."""
    g, names, edges = {}, {}, {}
    todo = [(parent, action, s)]
    while todo:
      p, a, x = todo.pop()
      n = self.name(p, a, x)
      if p is not None and self.name(None, None, p) in g:
        g[self.name(None, None, p)].add(n)
      edges.setdefault((self.name(None, None, p) if p is not None else None, n), set()).add(
          None if a is None else a.get_subschema_operation())
      if n in g:
        continue
      g[n] = set()
      names[n] = x
      todo += [(x, b, y) for b, y in self.children(facts, x)]
    return g, names, edges

  def random_path(self, facts, s, maxlen=4, entity=False):
    p, acts, good = s, [], []
    if not entity or self.is_entity(facts, s):
      good.append(([], s))
    for _ in range(maxlen):
      ch = self.children(facts, p)
      if not ch:
        break
      a, p = self.rng.choice(ch)
      acts = acts + [a]
      if not entity or self.is_entity(facts, p):
        good.append((acts, p))
    acts, p = self.rng.choice(good[-2:] or [([], s)])
    return self.path.DataSlicePath.from_actions(acts), p

  def is_entity(self, facts, s):
    return not s.prim and not any((s.what, 's', k) in facts for k in ('__items__', '__keys__'))

  def evaluate(self, ds, path):
    for a in path.actions:
      ds = a.evaluate(ds)
    return ds

  # -- comparing managers with the spec ---------------------------------------

  def observe(self, m, w, n=3, key='read', **kw):
    """Reads through the public interface; the first difference or None."""
    full = w.full()
    B = w.bags[-1]
    s0 = full.s
    rng = self.rng
    self.c.ev()
    if m.get_schema().v != [s0]:
      return 'the root schema is another one'
    got, want = reach(None, s0, m.get_schema().b), reach(None, s0, B)
    if got != want:
      return ('the schema differs', str(got), str(want))
    hist = [self.rev(r) for r in m.get_revision_history(tz=datetime.timezone.utc)]
    if hist != w.revs:
      return ('the revision history differs', hist, w.revs)
    d = self.stamps(m, w)
    if d:
      return d
    P = self.path.DataSlicePath
    paths = [self.random_path(B.data, s0)[0] for _ in range(n)] + [P.from_actions([])]
    for p in paths:
      self.c.ev()
      want = self.evaluate(full, p)
      if not m.exists(p):
        return ('a path of the schema does not exist', str(p))
      if m.get_schema_at(p).v != [want.s]:
        return ('the schema at a path differs', str(p), m.get_schema_at(p), want.s)
      for deep in (False, True):
        d = m.get_data_slice_at(p, with_all_descendants=deep)
        e = self.evaluate(m.get_data_slice(**{'populate_including_descendants' if deep else 'populate': {p}}), p)
        if stable(d.v) != stable(e.v) or reach(d.v, d.s, d.b) != reach(e.v, e.s, e.b):
          return ('get_data_slice_at does not serve what get_data_slice does', str(p), deep, str(d), str(e))
        if d.s != want.s or stable(d.v) != stable(want.v) or d.item != want.item:
          return ('the data at a path differs', str(p), deep, str(d), str(want))
        if '.get_keys' not in str(p) and '.get_values' not in str(p) and d.v != want.v:
          return ('the order of the data at a path differs', str(p), deep, str(d), str(want))
        if deep:
          a, b = reach(d.v, d.s, d.b), reach(want.v, want.s, B)
          if a != b:
            return ('the data below a path differs', str(p), str({k: v for k, v in a.items() if b.get(k) != v}),
                    str({k: v for k, v in b.items() if k not in a}))
    p, q = paths[0], paths[1]
    ds = m.get_data_slice(populate=[p], populate_including_descendants={q})
    if ds.v != full.v or ds.s != full.s:
      return ('get_data_slice does not return the root', str(ds), str(full))
    for x, deep in ((p, False), (q, True)):
      a, b = self.evaluate(ds, x), self.evaluate(full, x)
      if stable(a.v) != stable(b.v) or deep and reach(a.v, a.s, ds.b) != reach(b.v, b.s, B):
        return ('get_data_slice lacks requested data', str(x), deep, str(a), str(b))
    for k, v in reach(ds.v, ds.s, ds.b).items():
      if k[1] == 's':
        if B.data.get(k) != v:
          return ('a schema in the result is not current', k, v, B.data.get(k))
      elif B.data.get(k) != v:
        return ('data in the result is not current', k, v, B.data.get(k))
    bad = P.from_actions(list(p.actions) + [self.path.GetAttr('no such'), self.path.ListExplode()])
    if m.exists(bad):
      return ('a path that is not in the schema exists', str(bad))
    for f in (lambda: m.get_data_slice(populate={bad}), lambda: m.get_data_slice_at(bad),
              lambda: m.get_data_slice(populate_including_descendants={bad})):
      try:
        f()
        return ('an invalid path is served', str(bad))
      except ValueError:
        pass
    return None

  def stamps(self, m, w):
    """Time stamps: in the zone and format asked for, the same in every manager."""
    tz = datetime.timezone(datetime.timedelta(hours=5, minutes=30), 'X')
    ts = [r.timestamp for r in m.get_revision_history(tz=tz, timestamp_format='%Y-%m-%dT%H:%M:%S.%f%z')]
    utc = [r.timestamp for r in m.get_revision_history(tz=datetime.timezone.utc)]
    now = datetime.datetime.now(datetime.timezone.utc)
    try:
      t = [datetime.datetime.fromisoformat(x) for x in ts]
      if any(x.utcoffset() != datetime.timedelta(hours=5, minutes=30) for x in t):
        return ('a time stamp is not in the time zone asked for', ts)
      if utc != [x.astimezone(datetime.timezone.utc).strftime('%Y-%m-%d %H:%M:%S %Z') for x in t]:
        return ('a time stamp is not in the default format', utc, ts)
    except (ValueError, TypeError) as e:
      return ('a time stamp is not in the format asked for', ts, repr(e))
    if any(not self.t0 - datetime.timedelta(seconds=2) <= x <= now + datetime.timedelta(seconds=2) for x in t):
      return ('a time stamp is not the time of its revision', ts, str(self.t0), str(now))
    return None

  def rev(self, r):
    kind = type(r).__name__
    if kind == 'CreationMetadata':
      return ('creation', r.description)
    if kind == 'AttributeUpdateMetadata':
      return ('update', r.description, r.at_path, r.attr_name)
    return ('branch', r.description, r.parent_persistence_directory, r.parent_revision_history_index)

  def same(self, key, what, mk, w, n=3, **kw):
    try:
      d = self.observe(mk() if callable(mk) else mk, w, n)
    except (ValueError, OSError, LookupError, AssertionError) as e:
      d = f'reading raises {type(e).__name__}: {e}'
    if d is not None:
      self.c.fail(key, what, difference=d, **kw)
    return d is None

  # -- histories ---------------------------------------------------------------

  def start(self, fs=None, d='/data/m', root=None, desc=None):
    fs = fs or fakekd.MemFS()
    kw = {}
    if root is not None:
      kw['initial_data_manager'] = self.br.BareRootInitialDataManager.create_new(root)
    if desc is not None:
      kw['description'] = desc
    m = self.M.create_new(d, fs=fs, **kw)
    r = m.get_data_slice()
    w = World(r.no_bag(), Bag({}), ('creation', desc if desc is not None else 'Initial state with an empty root'))
    return fs, m, w

  def step(self, w, types, pool, n=0, desc=Ellipsis):
    """A random update: the arguments and the spec after it."""
    rng = self.rng
    B = w.bags[-1]
    p, s = self.random_path(B.data, w.root.s, entity=True)
    at = self.evaluate(w.full(), p)
    has_dict = any('get_' in a.get_subschema_operation() and 'item' not in a.get_subschema_operation()
                   for a in p.actions)
    known = {k[2]: v for k, v in B.data.items() if k[0] == s.what and k[1] == 's'}
    alias = rng.random() < .25
    name = rng.choice(types.names + ['odd name', 'u'])
    fixed = name in known
    if alias or (fixed and name not in getattr(self, 'types_of', {}).get(s.what, {})):
      # an alias of what is already there, or a fresh name
      q, qs = self.random_path(B.data, w.root.s)
      x = self.evaluate(w.full(), q)
      if fixed and known[name] != x.s:
        name = f'u{n}'
      if not x.item:
        x = DS(x.v[:1] or [None], x.s, x.b, True)
      value = DS(x.v, x.s, x.b, True)
    else:
      tab = self.types_of.setdefault(s.what, {})
      if name in tab:
        t = tab[name]
        others = [k for k in B.data if k[1:] == ('a', name) and k[0] not in at.v]
        if rng.random() < .3 and not others and types.by_name is None:
          t = tab[name] = types.new(2)  # the schema of the attribute is overwritten
      elif fixed:
        t = None
      else:
        t = tab[name] = types.attr_type(name, 2)
      k = None if at.item or has_dict or rng.random() < .3 else len(at.v)
      value = types.slice(t, k, pool)
    if desc is Ellipsis:
      desc = rng.choice([None, '', 'why not', f' update {n}\n', 'long ' * 60])
    b = self.held(at, value)
    nb = at.with_attrs(**{name: value.with_bag(b)}).b
    w2 = w.at(-1)
    w2.bags = w.bags + [nb]
    w2.revs = w.revs + [('update', desc or '', p.to_string(), name)]
    kw = dict(at_path=p, attr_name=name, attr_value=value)
    if desc is not None or rng.random() < .5:
      kw['description'] = desc
    return kw, w2

  @staticmethod
  def held(at, value):
    """The data that comes with a value: what is given to no item leaves its schema only."""
    if value.b is None:
      return Bag({})
    if len(value.v) == 1:
      v = value.v if any(x is not None for x in at.v) else []
    elif len(value.v) == len(at.v):
      v = [x for x, y in zip(value.v, at.v) if y is not None]
    else:
      v = value.v
    return fk.reach(v, value.s, value.b)

  def types(self, **kw):
    self.types_of = {}
    return Types(self.rng, ['a', 'b', 'cc', 'd'], **kw), {'ids': [Id()]}

  def history(self, n, fs=None, d='/data/m', reopen=.3, **kw):
    fs, m, w = self.start(fs, d, **kw)
    ts, pool = self.types()
    for j in range(n):
      if self.rng.random() < reopen:
        self.cache.clear()
        m = self.M.create_from_dir(d, fs=fs)
      a, w = self.step(w, ts, pool, j)
      m.update(**a)
    return fs, m, w, ts, pool

  def fresh(self, fs, d='/data/m', **kw):
    self.cache.clear()
    return self.M.create_from_dir(d, fs=fs, **kw)

  # -- P24: the schema graph ----------------------------------------------------

  def schemas(self, n):
    for p in ('INT32', 'NONE', 'MASK', 'ITEMID', 'STRING', 'FLOAT32', 'FLOAT64', 'BOOLEAN', 'BYTES', 'EXPR'):
      yield f'primitive {p}', DS([Sch(p)], fk.SCHEMA, None, True)
      ts, _ = self.types()
      x = Id()
      ts.attrs[x] = {'a': p, 'b': ('l', Id(), p), 'c': ('d', Id(), 'STRING', p)}
      yield f'attribute {p}', ts.schema(('e', x))
    for k in (70, 130, 320):
      ts, _ = self.types()
      yield f'wide {k}', ts.schema(ts.wide(k))
      yield f'deep {k}', ts.schema(ts.deep(k))
    for i in range(n):
      ts, _ = self.types()
      ts.names = ts.names + ['odd name', 'self', 'get_attr', '']
      t = ts.new(self.rng.randrange(1, 6))
      s = ts.schema(t)
      if self.rng.random() < .4 and ts.attrs:  # close cycles and share nodes
        b = dict(s.b.data) if s.b is not None else {}
        sids = [k for k in ts.attrs if any(f[0] == k for f in b)]
        for _ in range(self.rng.randrange(1, 4)):
          if sids:
            x, y = self.rng.choice(sids), self.rng.choice(sids)
            ts.attrs[x]['back'] = ('e', y)
        s = ts.schema(t)
      yield f'random {i}', s
      if i % 4 == 0:  # shared nodes without (many) cycles, some behind lists and dicts
        ts, _ = self.types()
        ids = [Id() for _ in range(self.rng.randrange(2, 7))]
        ts.attrs = {x: {} for x in ids}
        for j, x in enumerate(ids):
          for n in self.rng.sample(ts.names, self.rng.randrange(1, 4)):
            later = ids[j + 1:] or ['INT32']
            y = self.rng.choice(later if self.rng.random() < .9 else ids)
            y = y if isinstance(y, str) else ('e', y)
            r = self.rng.random()
            ts.attrs[x][n] = (('l', Id(), y) if r < .15 else ('d', Id(), self.rng.choice(['STRING', y]), y) if r < .3
                              else y if r < .9 else 'INT32')
        yield f'shared {i}', ts.schema(('e', ids[0]))

  def schema_graph(self):
    c, rng = self.c, self.rng
    for what, s in self.schemas(4000 if c.thorough else 1200):
      if c.enough():
        return
      facts = fk.facts(s.b)
      g, names, edges = self.graph(facts, s.v[0])
      h = self.sh.SchemaHelper(s)
      info = dict(schema=str(s.v[0]), facts=str(facts)[:1200])
      c.ev(sample=f'{what}: {len(g)} nodes')
      self.expect('nodes', 'the schema graph does not have exactly the nodes of the schema',
                  set(h.get_all_schema_node_names()), set(g), **info)
      if set(h.get_all_schema_node_names()) != set(g):
        continue
      self.expect('children', 'the children in the schema graph are wrong',
                  {n: set(h.get_child_schema_node_names(n)) for n in g}, g, **info)
      conv = {n: {x for x in g if n in g[x]} for n in g}
      self.expect('parents', 'the parents in the schema graph are not the converse of the children',
                  {n: set(h.get_parent_schema_node_names(n)) for n in g}, conv, **info)
      self.expect('subschema', 'the subschema at a schema node name is wrong',
                  {n: h.get_subschema_at(n).v[0] for n in g}, names, **info)
      leaves = {n for n in g if not g[n]}
      self.expect('leaves', 'the leaves are wrong',
                  (set(h.get_leaf_schema_node_names()), set(h.get_non_leaf_schema_node_names()),
                   {n for n in g if h.is_leaf_schema_node_name(n)},
                   {n for n in g if h.is_non_leaf_schema_node_name(n)}),
                  (leaves, set(g) - leaves, leaves, set(g) - leaves), **info)
      for bad in ('nope', '', '__NONE__'):
        for f in (h.get_child_schema_node_names, h.get_parent_schema_node_names, h.get_subschema_at,
                  h.is_leaf_schema_node_name, h.is_non_leaf_schema_node_name):
          self.refused('invalid-name', 'an invalid schema node name is accepted', lambda: f(bad),
                       fn=f.__name__, name=bad)
        if h.is_valid_schema_node_name(bad):
          c.fail('invalid-valid', 'an invalid schema node name counts as valid', name=bad)
        n = rng.choice(list(g))
        for a, b in ((bad, n), (n, bad)):
          self.refused('invalid-edge', 'an invalid schema node name is accepted', lambda:
                       h.get_minimal_schema_bag_for_parent_child_relationship(
                           parent_schema_node_name=a, child_schema_node_name=b), names=(a, b))
        self.refused('affected-invalid', 'an invalid schema node name is accepted', lambda:
                     h.get_affected_schema_node_names(at_schema_node_name=bad, attr_name='a',
                                                      attr_value_schema=self.kd.STRING), name=bad)
      self.expect('schema', 'get_schema is not the schema given', (h.get_schema().v, reach(None, h.get_schema().v[0], h.get_schema().b)),
                  (s.v, reach(None, s.v[0], s.b)), **info)
      if not all(h.is_valid_schema_node_name(n) for n in g):
        c.fail('valid', 'a schema node name counts as invalid', **info)
      # edges carry the schema facts to get from the parent to the child
      for (p, n), ops in edges.items():
        if p is None:
          continue
        b = clean(h.get_minimal_schema_bag_for_parent_child_relationship(
            parent_schema_node_name=p, child_schema_node_name=n).data)
        want = {(names[p].what, 's', self.key_of(a)): y for a, y in self.children(facts, names[p])
                if self.name(names[p], a, y) == n}
        self.expect('edge-bag', 'the schema bag of an edge does not hold exactly its facts', b, want,
                    parent=p, child=n, **info)
      # what an update can affect
      ents = [n for n in g if self.is_entity(facts, names[n])]
      if ents:
        n = rng.choice(ents)
        ts, _ = self.types()
        v = ts.schema(ts.new(3))
        if rng.random() < .4:
          x = rng.choice(list(g))
          v = DS([names[x]], fk.SCHEMA, s.b, True)
        a = self.path.GetAttr(rng.choice(['a', 'zz', 'odd name']))
        want = set(self.graph(fk.facts(v.b), v.v[0], names[n], a)[0])
        self.expect('affected', 'the schema node names affected by an update are wrong',
                    set(h.get_affected_schema_node_names(at_schema_node_name=n, attr_name=a.attr_name,
                                                         attr_value_schema=v)), want, at=n, attr=a.attr_name, **info)
      non = [n for n in g if n not in ents]
      if non:
        n = rng.choice(non)
        self.refused('affected-non-entity', 'an update at a node that is no entity is accepted',
                     lambda: h.get_affected_schema_node_names(at_schema_node_name=n, attr_name='a',
                                                              attr_value_schema=self.kd.STRING), node=n, **info)
      # unsupported schemas are rejected wherever they are
      if facts:
        k = rng.choice(sorted([k for k in facts], key=repr))
        for t in (fk.OBJECT, fk.SCHEMA):
          bad = DS(s.v, fk.SCHEMA, Bag({**facts, k: t}), True)
          if k in reach(None, s.v[0], bad.b):
            self.refused('unsupported', 'a schema that uses OBJECT or SCHEMA is accepted',
                         lambda: self.sh.SchemaHelper(bad), at=k, **info)
    for t in (fk.OBJECT, fk.SCHEMA):
      self.refused('unsupported-root', 'OBJECT or SCHEMA is accepted as the schema',
                   lambda: self.sh.SchemaHelper(DS([t], fk.SCHEMA, None, True)))
    self.refused('not-schema', 'something that is no schema is accepted',
                 lambda: self.sh.SchemaHelper(DS([1], Sch('INT32'), None, True)))
    self.refused('not-item', 'a slice of schemas is accepted as a schema',
                 lambda: self.sh.SchemaHelper(DS([Sch('INT32')], fk.SCHEMA, None, False)))

  def key_of(self, a):
    return {'ListExplode': '__items__', 'DictGetKeys': '__keys__', 'DictGetValues': '__values__'}.get(
        type(a).__name__) or a.attr_name

  # -- P25: what has to be loaded ------------------------------------------------

  def needed(self):
    c, rng = self.c, self.rng
    P = self.path.DataSlicePath

    def closure(rel, of):
      todo, out = [y for x in of for y in rel[x]], set()
      while todo:
        x = todo.pop()
        if x not in out:
          out.add(x)
          todo += rel[x]
      return out

    for what, s in self.schemas(4000 if c.thorough else 1200):
      if c.enough():
        return
      facts = fk.facts(s.b)
      g, names, edges = self.graph(facts, s.v[0])
      conv = {n: {x for x in g if n in g[x]} for n in g}
      h = self.sh.SchemaHelper(s)
      info = dict(schema=str(s.v[0]), facts=str(facts)[:1200])
      c.ev(sample=f'{what}: {len(g)} nodes')
      for _ in range(3):
        sub = {n for n in g if rng.random() < .3}
        self.expect('descendants', 'the descendants of schema node names are wrong',
                    set(h.get_descendant_schema_node_names(frozenset(sub))), closure(g, sub), of=sorted(sub), **info)
        self.expect('ancestors', 'the ancestors of schema node names are wrong',
                    set(h.get_ancestor_schema_node_names(frozenset(sub))), closure(conv, sub), of=sorted(sub), **info)
        bag = clean(h.get_schema_bag(frozenset(sub)).data)
        want = {(names[p].what, 's', self.key_of(a)): y for p in sub for a, y in self.children(facts, names[p])
                if self.name(names[p], a, y) in sub}
        self.expect('schema-bag', 'get_schema_bag does not hold exactly the edges between the given nodes',
                    bag, want, of=sorted(sub), **info)
        for f in (h.get_descendant_schema_node_names, h.get_ancestor_schema_node_names, h.get_schema_bag):
          self.refused('invalid', 'an invalid schema node name is accepted', lambda: f(sub | {'nope'}), fn=f.__name__)
      if len(g) > 60:
        n = [x for x in g if not conv[x]][0:1] + [x for x in g if not g[x]][0:1]
        for sub in ([x] for x in n):
          self.expect('descendants', 'the descendants of schema node names are wrong',
                      set(h.get_descendant_schema_node_names(frozenset(sub))), closure(g, sub), of=sub, **info)
          self.expect('ancestors', 'the ancestors of schema node names are wrong',
                      set(h.get_ancestor_schema_node_names(frozenset(sub))), closure(conv, sub), of=sub, **info)
        self.expect('schema-bag', 'get_schema_bag does not hold exactly the edges between the given nodes',
                    clean(h.get_schema_bag(frozenset(g)).data), {k: v for k, v in facts.items() if k[1] == 's'}, **info)
      paths = [self.random_path(facts, s.v[0], rng.randrange(0, 7)) for _ in range(60 if len(g) > 60 else 4)]
      for p, t in paths:
        # the name of a path
        x, par, act = s.v[0], None, None
        for a in p.actions:
          par, act = x, a
          x = dict((b.get_subschema_operation(), y) for b, y in self.children(facts, x))[a.get_subschema_operation()]
        n = self.name(par, act, x)
        self.expect('path-name', 'the schema node name of a path is wrong',
                    h.get_schema_node_name_for_data_slice_path(p), n, path=str(p), **info)
        if h.get_schema_node_name_for_data_slice_path(p) != n:
          return
        self.expect('exists', 'a path of the schema does not exist', h.exists(p), True, path=str(p), **info)
        # neighbours that are not in the schema
        for a in (self.path.GetAttr('no such'), self.path.GetAttr(''), self.path.GetAttr('__items__'),
                  self.path.ListExplode(), self.path.DictGetKeys(), self.path.DictGetValues(), self.path.GetAttr('a')):
          ok = a.get_subschema_operation() in [b.get_subschema_operation() for b, _ in self.children(facts, x)]
          q = P.from_actions(list(p.actions) + [a])
          self.expect('exists-next', 'a path exists exactly if the schema has its last step', h.exists(q), ok,
                      path=str(q), **info)
          if not ok:
            q = P.from_actions(list(q.actions) + [self.path.GetAttr('a')])
            self.expect('exists-beyond', 'a path exists beyond a missing step', h.exists(q), False, path=str(q), **info)
            self.refused('name-beyond', 'a schema node name is given for a path that does not exist',
                         lambda: h.get_schema_node_name_for_data_slice_path(q), path=str(q), **info)
            self.refused('needed-invalid', 'data of a path that does not exist can be requested',
                         lambda: h.get_schema_node_names_needed_to(populate=[q]), path=str(q), **info)
            self.refused('needed-invalid2', 'data below a path that does not exist can be requested',
                         lambda: h.get_schema_node_names_needed_to(populate=[p], populate_including_descendants=[q]),
                         path=str(q), **info)
      nm = h.get_schema_node_name_for_data_slice_path
      for few in (0, .4, .4):
        a = [p for p, _ in paths if rng.random() < .5]
        b = [p for p, _ in paths if rng.random() < few]
        want = {nm(p) for p in b}
        want |= closure(g, want)
        want |= {nm(p) for p in a}
        want |= closure(conv, want)
        kw = {}
        if a or rng.random() < .5:
          kw['populate'] = a
        if b or rng.random() < .5:
          kw['populate_including_descendants'] = frozenset(b)
        if rng.random() < .2 and not a:
          kw['populate'] = None
        self.expect('needed', 'the schema node names needed are not the requested ones, the descendants asked for and the ancestors of all',
                    set(h.get_schema_node_names_needed_to(**kw)), want, populate=[str(p) for p in a],
                    populate_including_descendants=[str(p) for p in b], **info)
      # all paths up to a depth
      for depth in (0, 1, 3):
        want, lvl = [()], [((), s.v[0])]
        for _ in range(depth):
          lvl = [(p + (a.get_subschema_operation(),), y) for p, x in lvl for a, y in self.children(facts, x)]
          want += [p for p, _ in lvl]
        if len(want) < 3000:
          self.expect('paths', 'the paths generated are not those of the schema up to the depth', sorted(
              tuple(a.get_subschema_operation() for a in p.actions)
              for p in h.generate_available_data_slice_paths(max_depth=depth)), sorted(want), depth=depth, **info)
      # asking twice gives the same
      self.expect('again', 'queries change the helper', set(h.get_all_schema_node_names()), set(g), **info)

  # -- P26: updates are atomic and exclusive --------------------------------------

  def updates(self):
    c, rng = self.c, self.rng
    for rnd in range(200 if c.thorough else 6):
      if c.enough():
        return
      fs0, _, w, ts, pool = self.history(rng.randrange(0, 3))
      base = fs0.clone()
      a, w2 = self.step(w, ts, pool, 8, 'first')
      b, wb = self.step(w, ts, pool, 9, 'second')
      fs = base.clone()
      m = self.fresh(fs)
      self.same('reopen', 'a reopened manager does not show its last revision', m, w)
      n0 = len(fs.log)
      m.update(**a)
      ops = [x[0] for x in fs.log[n0:]]
      self.same('success', 'after update() the manager does not show the update', m, w2, update=str(a))
      self.same('success-disk', 'after update() a new manager does not show the update',
                lambda: self.fresh(fs), w2, update=str(a))
      self.expect('overwritten', 'update() overwrote a file', fs.overwritten, [])
      ks = list(range(len(ops)))
      if not c.thorough:
        hot = [i for i in ks if ops[i] in ('rename',)]
        ks = sorted(set(rng.sample(ks, min(9, len(ks))) + hot + ks[-3:]))
      for k in ks:
        for mode in ('crash', 'fail', 'fail-after', 'crash-after', 'writer'):
          if c.enough():
            return
          self.fault(base, w, w2, wb, a, b, k, mode, ops)
      # validation: nothing happens when the update is rejected
      for what, bad in self.bad_updates(w):
        fs = base.clone()
        m = self.fresh(fs)
        files = dict(fs.files)
        if self.refused('accepted:' + what, 'an invalid update is accepted', lambda: m.update(**bad), update=str(bad)):
          self.same('rejected-mem:' + what, 'a rejected update changed the manager', m, w)
          self.expect('rejected-disk:' + what, 'a rejected update wrote to the directory', fs.files, files)
          m.update(**a)
          self.same('after-rejected', 'an update after a rejected one loses data', lambda: self.fresh(fs), w2)
      # read-only managers
      for ro in ('dir', 'set', 'copy'):
        fs = base.clone()
        m = self.fresh(fs, read_only=ro == 'dir')
        if ro == 'set':
          m.set_read_only()
        elif ro == 'copy':
          m = m.get_readonly_copy()
        files = dict(fs.files)
        if not m.is_read_only:
          c.fail('ro-flag', 'a read-only manager says it is not', how=ro)
        self.refused('ro:' + ro, 'a read-only manager accepts an update', lambda: m.update(**a))
        self.expect('ro-files:' + ro, 'a refused update of a read-only manager wrote files', fs.files, files)
        self.same('ro-mem:' + ro, 'a refused update changed a read-only manager', m, w)
      # an old revision of a directory cannot be written over
      if len(w.bags) > 1:
        fs = base.clone()
        i = rng.randrange(len(w.bags) - 1)
        m = self.fresh(fs, at_revision_history_index=i)
        self.refused('stale', 'an update on top of an old revision is accepted', lambda: m.update(**dict(
            at_path=self.path.DataSlicePath.from_actions([]), attr_name='late', attr_value=DS([1], Sch('INT32'), None, True))))
        self.same('stale-mem', 'a refused update changed the manager', m, w.at(i))
        self.same('stale-disk', 'a refused update changed the directory', lambda: self.fresh(fs), w)
    self.large()
    # many updates
    fs, m, w, ts, pool = self.history(30 if not c.thorough else 60, reopen=.5)
    self.same('history', 'after many updates the manager does not show the last state', m, w, 8)
    self.same('history-disk', 'after many updates a new manager does not show the last state', lambda: self.fresh(fs), w, 8)

  def large(self):
    """Values of many parts, and of many levels."""
    root = self.path.DataSlicePath.from_actions([])
    for n in (9, 24, 110):
      fs, m, w = self.start()
      ts, pool = self.types()
      again = ts.wide(n)
      for name, t in (('wide', again), ('deep', ts.deep(n)), ('wide', again), ('both', ts.wide(3))):
        ts.dense = int(name == 'deep')
        value = ts.slice(t, None, pool, n + 2)
        ts.dense = 0
        while value.v == [None]:
          value = ts.slice(t, None, pool, n + 2)
        b = fk.reach(value.v, value.s, value.b)
        nb = w.full().with_attrs(**{name: value.with_bag(b)}).b
        w = World(w.root, None, None).grow(w, nb, ('update', '', '', name))
        m.update(at_path=root, attr_name=name, attr_value=value)
        self.same('large', 'an update with many parts is not served', m, w, 6, parts=n, attr=name)
        self.same('large-disk', 'an update with many parts is not on disk', lambda: self.fresh(fs), w, 6, parts=n, attr=name)

    # one schema many times in a chain, long paths, texts as they are given, attributes that change their schema
    fs, m, w = self.start()
    sid, ids = Sch(Id()), [Id() for _ in range(14)]
    chain = {(sid.what, 's', 'next'): sid, (sid.what, 's', 'v'): Sch('INT32')}
    for j, i in enumerate(ids):
      chain[(i, 'a', 'v')] = j
      if j:
        chain[(ids[j - 1], 'a', 'next')] = i
    long, at = {}, (Sch(Id()), Id())
    top = at
    for j in range(12):
      to = (Sch(Id()), Id())
      long[(at[0].what, 's', f'attribute_number_{j}')], long[(at[1], 'a', f'attribute_number_{j}')] = to
      at = to
    num = lambda x: DS([x], Sch('INT32'), None, True)
    e, l = (Sch(Id()), Id()), (Sch(Id()), Id())
    deep = self.path.DataSlicePath.from_actions([self.path.GetAttr('long')] + [
        self.path.GetAttr(f'attribute_number_{j}') for j in range(12)])
    for at, name, value, desc in (
        (root, 'chain', DS([ids[0]], sid, Bag(chain), True), ' spaces around\n'), (root, 'long', DS([top[1]], top[0], Bag(long), True), 'x' * 500),
        (deep, 'more', num(5), '  '), (root, 'x', num(1), 'y\ty'), (root, 'x', DS([e[1]], e[0], Bag({
            (e[0].what, 's', 'a'): Sch('INT32'), (e[1], 'a', 'a'): 3}), True), None),
        (root, 'x', DS(['now text'], Sch('STRING'), None, True), ''), (root, 'x', DS([l[1]], l[0], Bag({
            (l[0].what, 's', '__items__'): Sch('INT32'), (l[1], 'list'): (1, 2)}), True), 'a list'),
        (deep, 'more', DS(['text'], Sch('STRING'), None, True), None)):
      at_ds = self.evaluate(w.full(), at)
      nb = at_ds.with_attrs(**{name: value}).b
      w = w.at(-1).grow(w, nb, ('update', desc or '', at.to_string(), name))
      m.update(at_path=at, attr_name=name, attr_value=value, **({} if desc is None else {'description': desc}))
      self.same('special', 'an update is not served', m, w, 6, attr=name, at=str(at), desc=desc)
      self.same('special-disk', 'an update is not on disk', lambda: self.fresh(fs), w, 6, attr=name, at=str(at), desc=desc)
    b = m.branch(description='  of \n it ')
    self.same('special-branch', 'a branch does not serve the data', b, w.branch(-1, '/data/m', '  of \n it '), 6)

  def bad_updates(self, w):
    root = self.path.DataSlicePath.from_actions([])
    one = DS([1], Sch('INT32'), None, True)
    yield 'path', dict(at_path=root.extended_with_action(self.path.GetAttr('nowhere')), attr_name='a', attr_value=one)
    sid, i = Sch(Id()), Id()
    for t in (fk.OBJECT, fk.SCHEMA):
      v = DS([i], sid, Bag({(sid.what, 's', 'x'): t, (i, 'a', 'x'): sid if t == fk.SCHEMA else Id()}), True)
      yield f'{t}', dict(at_path=root, attr_name='zz', attr_value=v)
      yield f'top {t}', dict(at_path=root, attr_name='zz', attr_value=DS([Id() if t == fk.OBJECT else sid], t, Bag({}), True))
    prims = [k[2] for k, v in w.bags[-1].data.items()
             if k[0] == w.root.s.what and k[1] == 's' and v.prim]
    if prims:
      yield 'no entity', dict(at_path=root.extended_with_action(self.path.GetAttr(prims[0])), attr_name='a', attr_value=one)

  def fault(self, base, w, w2, wb, a, b, k, mode, ops):
    c = self.c
    fs = base.clone()
    m = self.fresh(fs)
    other = self.fresh(fs) if mode == 'writer' else None
    n0 = len(fs.log)
    st = {'dead': False, 'ran': False, 'in': False, 'err': None}
    where = f'{mode} at operation {k} ({ops[k]}) of {len(ops)}'

    def hook(i, name, args):
      if st['in']:
        return
      if st['dead'] or (i - n0 == k and mode == 'crash'):
        st['dead'] = True
        raise fakekd.Crash()
      if i - n0 == k and mode == 'fail':
        raise fakekd.Fault('injected')
      if i - n0 == k and mode == 'writer' and not st['ran']:
        st['in'] = st['ran'] = True
        try:
          other.update(**b)
        except Exception as e:  # pylint: disable=broad-except
          st['err'] = e
        st['in'] = False

    def after(i, name, args):
      if i - n0 == k and mode == 'fail-after':
        raise fakekd.Fault('injected')
      if i - n0 == k and mode == 'crash-after':
        st['dead'] = True
        raise fakekd.Crash()

    fs.hook, fs.after = hook, after
    err = None
    try:
      m.update(**a)
    except BaseException as e:  # pylint: disable=broad-except
      err = e
    fs.hook = fs.after = None
    c.ev(sample=where)
    committed = {p: x for p, x in base.files.items()}
    if fs.overwritten or any(fs.files.get(p) != x for p, x in committed.items()):
      c.fail('changed-files', 'a disturbed update changed committed files', where=where, files=str(fs.overwritten)[:300])

    def state(mk):
      out = []
      for name, x in (('old', w), ('new', w2), ('other', wb)):
        try:
          d = self.observe(mk(), x, 2)
        except (ValueError, OSError, LookupError, AssertionError) as e:
          d = repr(e)
        if d is None:
          return name
        out.append(d)
      return ('neither', out)

    disk = state(lambda: self.fresh(fs))
    if mode == 'writer':
      if not st['ran']:
        return
      won = [x for x, e in (('first', err), ('second', st['err'])) if e is None]
      if len(won) != 1:
        c.fail('writers', 'of two concurrent writers exactly one may commit', where=where, committed=won,
               errors=[repr(err), repr(st['err'])])
        return
      want, lose = ('new', other) if won == ['first'] else ('other', m)
      if disk != want:
        c.fail('lost', 'a concurrent writer lost or corrupted the committed update', where=where, won=won, got=disk)
      if state(lambda: lose) != 'old':
        c.fail('loser', 'the manager whose update was refused changed its state', where=where)
      try:
        lose.update(**b)
        c.fail('stale-writer', 'a stale manager can commit after its directory moved on', where=where)
      except Exception:  # pylint: disable=broad-except
        pass
      if state(lambda: self.fresh(fs)) != want:
        c.fail('winner', 'the update of the winner is lost', where=where)
      return
    if disk not in ('old', 'new'):
      c.fail('torn', 'after a failure during update() the directory shows neither the old nor the new state',
             where=where, got=disk)
      return
    if err is None and disk != 'new':
      c.fail('silent', 'update() returned but the update is not on disk', where=where)
    if mode.startswith('fail'):
      self.cache.clear()
      mem = state(lambda: m)
      if mem not in (('new',) if err is None else ('old', disk)):
        c.fail('instance', 'a failed update left the manager in a state that is not on disk', where=where, got=mem, disk=disk)
      if mode == 'fail' and err is not None and disk == 'old':
        try:
          m.update(**a)
          if state(lambda: self.fresh(fs)) != 'new':
            c.fail('retry', 'a retried update loses data', where=where)
        except Exception as e:  # pylint: disable=broad-except
          c.fail('retry-raise', 'an update cannot be retried after a transient failure', where=where, error=e)

  # -- P27: every revision reads back ------------------------------------------------

  def revisions(self):
    c, rng = self.c, self.rng
    for rnd in range(400 if c.thorough else 22):
      if c.enough():
        return
      root = None
      if rng.random() < .4:
        sid = Sch(Id())
        root = DS([Id()], sid, Bag({}), True)
      n = rng.randrange(0, 6)
      fs, m, w, ts, pool = self.history(n, root=root, desc=rng.choice([None, 'mine', '', ' mine\t']))
      if root is not None and m.get_data_slice().v != root.v:
        c.fail('root', 'the root is not the one given', got=m.get_data_slice(), want=root)
      c.ev(sample=f'{n} updates')
      self.same('live', 'a manager does not serve the data of its updates', m, w, 5)
      for i in range(n + 1):
        self.same('revision', 'a manager opened at a revision does not serve the data of that revision',
                  lambda: self.fresh(fs, at_revision_history_index=i), w.at(i), revision=i, of=n + 1)
      for i in (-1, n + 1, n + 7):
        self.refused('bounds', 'a manager can be opened at a revision that does not exist',
                     lambda: self.fresh(fs, at_revision_history_index=i), revision=i, of=n + 1)
      ro = m.get_readonly_copy()
      old = self.fresh(fs, at_revision_history_index=rng.randrange(n + 1))
      w_old = w.at(len(old.get_revision_history()) - 1)
      old_ro = old.get_readonly_copy()
      w0 = w
      a, w = self.step(w, ts, pool, 77)
      try:
        m.update(**a)
      except ValueError as e:
        c.fail('update', 'a valid update is refused', error=e, update=str(a))
        continue
      self.same('live2', 'a manager does not serve the data of its updates', m, w)
      self.same('copy', 'a read-only copy does not stay at its revision', ro, w0)
      self.same('old', 'a manager at an old revision does not stay there', old, w_old)
      self.same('old-copy', 'a copy of a manager at an old revision is not at that revision', old_ro, w_old)
      self.expect('dir', 'the directory of a manager is not the one given',
                  (m.get_persistence_directory(), ro.get_persistence_directory()), ('/data/m', '/data/m'))
    self.guards()
    # a long history
    fs, m, w, ts, pool = self.history(70, reopen=.1)
    self.same('long', 'a manager with many revisions does not serve its data', m, w, 8)
    self.same('long-disk', 'a reopened manager with many revisions does not serve its data', lambda: self.fresh(fs), w, 8)
    for i in (0, 1, 9, 10, 11, 35, 69, 70):
      self.same('long-rev', 'a manager opened at a revision does not serve the data of that revision',
                lambda: self.fresh(fs, at_revision_history_index=i), w.at(i), revision=i, of=71)
    # read-only exactly as asked for
    for n in (0, 2):
      fs, m, w, ts, pool = self.history(n)
      for i in (None, 0, n):
        for ro in (None, False, True):
          kw = {} if ro is None else {'read_only': ro}
          if i is not None:
            kw['at_revision_history_index'] = i
          self.expect('read-only', 'a manager is read-only exactly if opened so', self.fresh(fs, **kw).is_read_only, bool(ro),
                      args=str(kw))
      x = self.fresh(fs, at_revision_history_index=n)
      a, w = self.step(w, ts, pool, 500)
      x.update(**a)
      self.same('at-latest', 'a manager opened at the latest revision by number cannot be updated', lambda: self.fresh(fs), w)
    # opening something else
    fs = fakekd.MemFS()
    fs.make_dirs('/empty')
    for d in ('/nowhere', '/empty'):
      self.refused('open:' + d, 'a manager can be opened where there is none', lambda: self.M.create_from_dir(d, fs=fs))
    with fs.open('/empty/x', 'wb') as f:
      f.write(b'')
    with fs.open('/file', 'wb') as f:
      f.write(b'')
    for d in ('/empty', '/file'):
      files = dict(fs.files)
      self.refused('new:' + d, 'a manager is created in a place that is in use', lambda: self.M.create_new(d, fs=fs))
      self.expect('new-files:' + d, 'a refused create_new wrote files', fs.files, files)
    for d in ('/data/[x]', '/data/a*b', '/data/with space', '/data/q?'):
      fs, m, w, ts, pool = self.history(2, d=d)
      self.same('odd:' + d, 'a manager in a directory of this name cannot be reopened', lambda: self.fresh(fs, d), w)
      self.refused('odd-new:' + d, 'create_new accepts a directory that is not empty', lambda: self.M.create_new(d, fs=fs))
    self.composite()

  def guards(self):
    """What may be given, and where things may be put."""
    c, kd = self.c, self.kd
    # an empty directory will do, and the file system defaults to the usual one
    fs = fakekd.MemFS()
    fs.make_dirs('/data/m')
    _, m, w = self.start(fs)
    self.same('empty-dir', 'create_new does not work in an empty directory', m, w)
    self.same('empty-dir-disk', 'create_new does not work in an empty directory', lambda: self.fresh(fs), w)
    get = kd.file_io.get_default_file_system_interaction
    kd.file_io.get_default_file_system_interaction = lambda: fs
    try:
      m = self.M.create_new('/data/dflt')
      w = World(m.get_data_slice().no_bag(), Bag({}), ('creation', 'Initial state with an empty root'))
      self.cache.clear()
      self.same('default-fs', 'the default file system is not used', lambda: self.M.create_from_dir('/data/dflt'), w)
    finally:
      kd.file_io.get_default_file_system_interaction = get
    # paths up to a depth
    _, m, w, _, _ = self.history(3)
    for depth in (0, 1, 2):
      want, lvl = [()], [((), w.root.s)]
      for _ in range(depth):
        lvl = [(p + (a.get_subschema_operation(),), y) for p, x in lvl for a, y in self.children(w.bags[-1].data, x)]
        want += [p for p, _ in lvl]
      self.expect('paths', 'the paths generated are not those of the schema up to the depth', sorted(
          tuple(a.get_subschema_operation() for a in p.actions) for p in m.generate_paths(max_depth=depth)),
                  sorted(want), depth=depth)
    # roots
    i, sid, two = Id(), Sch(Id()), Sch(Id())
    new = self.br.BareRootInitialDataManager.create_new
    for what, r in {
        'a slice': DS([i, Id()], sid, Bag({}), False), 'a missing item': DS([None], sid, Bag({}), True),
        'a primitive': DS([1], Sch('INT32'), None, True),
        'a list': DS([i], two, Bag({(two.what, 's', '__items__'): Sch('INT32'), (i, 'list'): ()}), True),
        'an entity with attributes': DS([i], sid, Bag({(sid.what, 's', 'a'): Sch('INT32')}), True),
    }.items():
      self.refused('root:' + what, f'{what} is accepted as the root', lambda: new(r))
    r = new(DS([i], sid, Bag({(Id(), 'a', 'x'): 1}), True))
    snn = sorted(r.get_all_schema_node_names())
    self.expect('root-names', 'the initial data of a root has one node', len(snn), 1)
    self.expect('root-none', 'no data is requested but some is served', clean(r.get_data_bag_for_schema_node_names(set()).data), {})
    for x in (r, self.comp.CompositeInitialDataManager.create_new([m])):
      n = type(x).__name__
      for f in (x.get_data_bag_for_schema_node_names, x.get_data_slice_for_schema_node_names):
        self.refused('initial-names:' + n, 'an invalid schema node name is accepted', lambda: f({'nope'}), fn=f.__name__, cls=n)
      fs = fakekd.MemFS()
      fs.make_dirs('/x/y')
      with fs.open('/x/y/z', 'wb') as f:
        f.write(b'')
      files = dict(fs.files)
      self.refused('initial-used:' + n, 'initial data is written to a directory in use', lambda: x.serialize('/x/y', fs=fs), cls=n)
      self.expect('initial-used-files:' + n, 'refused initial data wrote files', fs.files, files)
      for d in ('/x/none', '/x'):
        self.refused('initial-none:' + n, 'initial data is read where there is none', lambda: type(x).deserialize(d, fs=fs),
                     (ValueError, OSError), cls=n, dir=d)
      x.serialize('/x/new', fs=fs)
      if n.startswith('Bare'):
        b = type(x).deserialize('/x/new', fs=fs)
        for y in (b, x.copy()):
          self.expect('initial-root', 'a root read back is another one', (y.get_data_slice().v, y.get_schema().v), ([i], [sid]))
    self.refused('composite-none', 'a composite of nothing is made', lambda: self.comp.CompositeInitialDataManager.create_new([]))
    # an initial data manager nobody could read back
    class Other(type(r)):
      @classmethod
      def get_id(cls):
        return 'nobody knows'
    fs = fakekd.MemFS()
    o = Other.create_new()
    if isinstance(o, Other):
      self.refused('unregistered', 'initial data that cannot be read back is accepted',
                   lambda: self.M.create_new('/data/u', fs=fs, initial_data_manager=o))
      self.expect('unregistered-files', 'a refused create_new wrote files', fs.files, {})

  def composite(self):
    """Managers on top of the data of other managers."""
    c, rng = self.c, self.rng
    for rnd in range(150 if c.thorough else 10):
      if c.enough():
        return
      fs = fakekd.MemFS()
      root = DS([Id()], Sch(Id()), Bag({}), True)
      ts, pool = self.types(by_name=True, rec=False)
      ts.names = ['a', 'b', 'cc']
      ms = []
      clash = rnd % 3 == 1  # the parts give the root an attribute of the same name and of another type
      for j in range(rng.randrange(1, 4) if rnd % 4 else rng.randrange(4, 8)):
        _, m, w = self.start(fs, f'/data/c{j}', root)
        if clash:
          kind = Sch(fk.PRIMITIVES[(rnd + j) % 7])
          v = DS([f'v{j}'], kind, None, True)
          m.update(at_path=self.path.DataSlicePath.from_actions([]), attr_name='clash', attr_value=v)
          w2 = w.at(-1)
          w2.bags = w.bags + [w.full().with_attrs(clash=v.with_bag(Bag({}))).b]
          w2.revs = w.revs + [('update', '', '', 'clash')]
          w = w2
        for k in range(rng.randrange(0, 4)):
          a, w = self.simple_step(w, ts, pool, k)
          m.update(**a)
        ms.append([m, w])
      ci = self.comp.CompositeInitialDataManager.create_new([m for m, _ in ms])
      desc = f'Initial state with {ci.get_description()}'
      for m, w in ms:
        if m.get_persistence_directory() not in desc:
          c.fail('composite-desc', 'the description of a composite does not name its parts', got=desc)
      m = self.M.create_new('/data/all', fs=fs, initial_data_manager=ci)
      w = World(root.no_bag(), fk.enriched(*[w.bags[-1] for _, w in ms]), ('creation', desc))
      for j in range(rng.randrange(0, 3)):
        a, w = self.simple_step(w, ts, pool, 50 + j)
        m.update(**a)
      # the parts go on
      for x in ms:
        a, x[1] = self.simple_step(x[1], ts, pool, 90)
        x[0].update(**a)
      c.ev(sample=f'composite of {len(ms)}')
      self.same('composite', 'a composite does not serve the data of its parts, earlier ones first', m, w, 5)
      self.same('composite-disk', 'a reopened composite does not serve the data of its parts as they were',
                lambda: self.fresh(fs, '/data/all'), w, 5)
      for i in range(len(w.bags)):
        self.same('composite-rev', 'a composite at an old revision does not serve its data',
                  lambda: self.fresh(fs, '/data/all', at_revision_history_index=i), w.at(i))
      br = m.branch('/data/br', revision_history_index=-1)
      self.same('composite-branch', 'a branch of a composite loses data', br, w.branch(-1, '/data/all', None))
      self.same('composite-branch-disk', 'a reopened branch of a composite loses data',
                lambda: self.fresh(fs, '/data/br'), w.branch(-1, '/data/all', None))
      for (x, wx) in ms:
        self.same('composite-part', 'the parts of a composite are changed', x, wx)

  def simple_step(self, w, ts, pool, n):
    """An update at the root or below whose attribute type depends on its name only."""
    rng = self.rng
    B = w.bags[-1]
    p, s = self.random_path(B.data, w.root.s, 2, entity=True)
    at = self.evaluate(w.full(), p)
    name = rng.choice(ts.names)
    value = ts.slice(ts.attr_type(name, 2), None, pool)
    b = self.held(at, value)
    w2 = w.at(-1)
    w2.bags = w.bags + [at.with_attrs(**{name: value.with_bag(b)}).b]
    w2.revs = w.revs + [('update', '', p.to_string(), name)]
    return dict(at_path=p, attr_name=name, attr_value=value), w2

  # -- P28: branches ---------------------------------------------------------------------

  def branches(self):
    c, rng = self.c, self.rng
    for rnd in range(300 if c.thorough else 16):
      if c.enough():
        return
      n = rng.randrange(0, 5)
      fs, m, w, ts, pool = self.history(n)
      tab = dict(self.types_of)
      files = dict(fs.files)
      made = []
      for i in rng.sample(range(-n - 1, n + 1), min(3, 2 * n + 2)):
        out = None if rng.random() < .4 else f'/out/b{len(made)}'
        if out and rng.random() < .4:
          fs.make_dirs(out)
        desc = rng.choice([None, 'fork', '', ' of\n it  '])
        kw = {'description': desc} if desc is not None else {}
        if i != -1 or rng.random() < .5:
          kw['revision_history_index'] = i
        b = m.branch(out, **kw)
        wb = w.branch(i, '/data/m', desc)
        c.ev(sample=f'branch at {i} of {n + 1}')
        d = b.get_persistence_directory()
        if out and d != out:
          c.fail('branch-dir', 'a branch is not in the directory given', got=d, want=out)
        self.same('branch', 'a branch does not serve the data of the revision it was made at', b, wb,
                  revision=i, of=n + 1)
        self.same('branch-disk', 'a reopened branch does not serve the data of the revision it was made at',
                  lambda: self.fresh(fs, d), wb, revision=i, of=n + 1)
        made.append([b, wb, d])
      fs2 = fs.alias()
      n1, n2 = len(fs.log), len(fs2.log)
      out = f'/other/b{rnd}' if rng.random() < .6 else None
      b = m.branch(out, fs=fs2)
      out = out or os.path.join('/data/m', 'branches')
      wb = w.branch(-1, '/data/m', None)
      wr = lambda log: [x for x in log if x[0] in ('rename', 'remove', 'make_dirs') or
                        x[0] == 'open' and any(isinstance(y, str) and y[:1] in 'wax' for y in x[2:])]
      if wr(fs.log[n1:]) or not wr(fs2.log[n2:]):
        c.fail('branch-fs', 'a branch is not written through the file system given', through_its_own=wr(fs.log[n1:]))
      for x in wr(fs2.log):
        if not all(y.startswith(out) for y in x[1:] if isinstance(y, str) and y.startswith('/')):
          c.fail('branch-only', 'branch() writes outside of its directory', op=x, dir=out)
      n1 = len(fs.log)
      self.types_of = {k: {} for k in tab}
      a, wb = self.step(wb, ts, pool, 298)
      b.update(**a)
      if wr(fs.log[n1:]):
        c.fail('branch-fs-update', 'a branch is not updated through the file system given', through_its_own=wr(fs.log[n1:]))
      self.same('branch-fs-data', 'a branch on a file system given does not serve its data', b, wb)
      if len({x[2] for x in made}) != len(made):
        c.fail('branch-shared', 'two branches share a directory', dirs=[x[2] for x in made])
      self.expect('branch-files', 'branch() changed files of the original', {p: fs.files.get(p) for p in files}, files)
      for i in (n + 1, -n - 2, 10**6):
        files = dict(fs.files)
        self.refused('branch-bounds', 'a branch at a revision that does not exist is made',
                     lambda: m.branch('/out/bad', revision_history_index=i), revision=i, of=n + 1)
        self.expect('branch-bounds-files', 'a refused branch wrote files', fs.files, files)
      # independence
      first = [m, w, '/data/m']
      for x in [first] + made:
        self.types_of = {k: {} for k in tab}
        a, x[1] = self.step(x[1], ts, pool, 300 + made.index(x) if x in made else 299)
        try:
          x[0].update(**a)
        except ValueError as e:
          c.fail('branch-update', 'a branch or its original cannot be updated', error=e, dir=x[2])
      for x in made:
        self.same('indep', 'updates of the original or of other branches show in a branch, or its own are lost', x[0], x[1])
        self.same('indep-disk', 'a reopened branch is not independent', lambda: self.fresh(fs, x[2]), x[1])
      if made:
        x = made[0]
        b2 = x[0].branch('/out/second', revision_history_index=0)
        w2 = x[1].branch(0, x[2], None)
        self.same('second', 'a branch of a branch does not serve the data', b2, w2)
        self.same('second-disk', 'a reopened branch of a branch does not serve the data', lambda: self.fresh(fs, '/out/second'), w2)
        for i in (-1, len(x[1].bags) - 1):
          b2 = x[0].branch(f'/out/latest{i}', revision_history_index=i)
          w2 = x[1].branch(i, x[2], None)
          self.same('second-latest', 'a branch of a branch does not serve the data', b2, w2, revision=i)
          self.same('second-latest-disk', 'a reopened branch of a branch does not serve the data',
                    lambda: self.fresh(fs, f'/out/latest{i}'), w2, revision=i)
          rc = b2.get_readonly_copy()
          self.same('second-copy', 'a copy of a branch of a branch does not serve the data', rc, w2, revision=i)
          self.expect('copy-flag', 'a read-only copy is not read-only', rc.is_read_only, True)
      for d in ('/odd/[x]', '/odd/a*b?', '/odd/[!a]'):
        fs.make_dirs(d)
        m.branch(d)
        files = dict(fs.files)
        self.refused('branch-odd', 'a branch is made in a directory that is not empty', lambda: m.branch(d), dir=d)
        self.expect('branch-odd-files', 'a refused branch wrote files', fs.files, files)
        self.same('branch-odd-disk', 'a branch in a directory of this name cannot be reopened', lambda: self.fresh(fs, d),
                  first[1].branch(-1, '/data/m', None))
      # places in use
      with fs.open('/plain', 'wb') as f:
        f.write(b'x')
      files = dict(fs.files)
      fs.make_dirs('/junk')
      with fs.open('/junk/readme', 'wb') as f:
        f.write(b'x')
      files = dict(fs.files)
      self.refused('branch-junk', 'a branch is made in a directory that is not empty', lambda: m.branch('/junk'))
      self.expect('branch-junk-files', 'a refused branch wrote files', fs.files, files)
      for d in ('/data/m', '/out/second', '/plain'):
        if d in ('/data/m', '/plain') or made:
          self.refused('branch-used:' + d, 'a branch is made in a place that is in use', lambda: m.branch(d), dir=d)
          self.expect('branch-used-files', 'a refused branch wrote files', fs.files, files)
    self.claims()

  def claims(self):
    """Concurrent branches get directories of their own."""
    c, rng, dsm = self.c, self.rng, self.dsm
    orig = getattr(dsm, '_get_uuid_and_short_form', None)
    fs0, _, w, ts, pool = self.history(1)
    for collide in (False, True):
      if collide and orig is None:
        break
      for k in itertools.count():
        if c.enough():
          return
        fs = fs0.clone()
        m, m2 = self.fresh(fs), self.fresh(fs)
        n0 = len(fs.log)
        st = {'in': False, 'b': None, 'err': None, 'n': 0}

        def hook(i, name, args):
          if i - n0 == k and not st['in']:
            st['in'] = True
            try:
              st['b'] = m2.branch()
            except Exception as e:  # pylint: disable=broad-except
              st['err'] = e

        def short():
          st['n'] += 1
          r = orig()
          return type(r)(uuid=r.uuid, short_form=f'same{(st["n"] - 1) // 3}')

        if collide:
          dsm._get_uuid_and_short_form = short  # pylint: disable=protected-access
        fs.hook = hook
        try:
          b = m.branch()
          err = None
        except Exception as e:  # pylint: disable=broad-except
          b, err = None, e
        finally:
          fs.hook = None
          if collide:
            dsm._get_uuid_and_short_form = orig  # pylint: disable=protected-access
        c.ev(sample=f'second branch() at operation {k}')
        if not st['in']:
          break
        if err or st['err']:
          c.fail('claim-error', 'concurrent branches disturb each other', op=k, errors=[repr(err), repr(st['err'])])
          continue
        ds = [b.get_persistence_directory(), st['b'].get_persistence_directory()]
        if ds[0] == ds[1]:
          c.fail('claim', 'two concurrent branches got one directory', op=k, dirs=ds, collide=collide)
        wb = w.branch(-1, '/data/m', None)
        for x, d in ((b, ds[0]), (st['b'], ds[1])):
          self.same('claim-data', 'one of two concurrent branches does not serve its data', x, wb, 2, op=k)
          self.same('claim-disk', 'one of two concurrent branches cannot be reopened', lambda: self.fresh(fs, d), wb, 2, op=k)
        if k > (60 if c.thorough else 16):
          break

  # -- P29: views ------------------------------------------------------------------------

  def view_properties(self):
    c, rng, kd = self.c, self.rng, self.kd
    if 're2' not in sys.modules:
      m = types.ModuleType('re2')
      m.compile = re.compile
      sys.modules['re2'] = m
    taken = {'get_schema', 'with_attrs', 'u'}
    kd.slices = types.SimpleNamespace(
        internal_is_compliant_attr_name=lambda n: not n.startswith('_') and n not in taken)
    from koladata.ext.storage import data_slice_manager_view as dv
    V, P, pa = dv.DataSliceManagerView, self.path.DataSlicePath, self.path
    ops = lambda p: tuple(a.get_subschema_operation() for a in p.actions)
    same_slice = lambda a, b: (stable(a.v), a.s, a.item, reach(a.v, a.s, a.b)) == (stable(b.v), b.s, b.item, reach(b.v, b.s, b.b))

    def is_view(what, got, m, p, **kw):
      c.ev()
      if type(got) is not V or got.get_manager() is not m or ops(got.get_path_from_root()) != ops(p):
        c.fail(what, f'{what}: not the view of the same manager at the path expected', got=repr(got), want=str(p), **kw)
        return False
      return True

    def below(w, s, depth):
      out, lvl = [], [((), s)]
      for _ in range(depth):
        lvl = [(p + (a,), y) for p, x in lvl for a, y in self.children(w.bags[-1].data, x)]
        out += [p for p, _ in lvl]
      return out

    def navigate(m, w, p, s):
      v = V(m, p)
      acts = list(p.actions)
      kw = dict(path=str(p))
      B = w.bags[-1].data
      is_view('view', v, m, p)
      if not acts:
        is_view('default', V(m), m, p)
      self.expect('valid', 'a view of a path that exists is not valid', v.is_view_valid(), True, **kw)
      sch = v.get_schema()
      self.expect('schema', 'the schema of a view is not that of the manager at the path', (sch.v, reach(None, s, sch.b)),
                  ([s], reach(None, s, w.bags[-1])), **kw)
      is_view('root', v.get_root(), m, P.from_actions([]), **kw)
      for k in range(-2, len(acts) + 3):
        fs = [('ancestor', lambda: v.get_ancestor(k)), ('ancestor', lambda: v.get_ancestor(num_levels_up=k))]
        fs += [('parent', v.get_parent)] * (k == 1) + [('grandparent', v.get_grandparent)] * (k == 2)
        for what, f in fs:
          if 0 <= k <= len(acts):
            is_view(what, f(), m, P.from_actions(acts[:len(acts) - k]), up=k, **kw)
          else:
            self.refused(what, f'{what}: a view of levels there are not', f, up=k, **kw)
      ch = self.children(B, s)
      have = {a.get_subschema_operation(): a for a, _ in ch}
      for what, a, f in [('list items', pa.ListExplode(), v.get_list_items), ('list items', pa.ListExplode(), lambda: v[:]),
                         ('dict keys', pa.DictGetKeys(), v.get_dict_keys), ('dict values', pa.DictGetValues(), v.get_dict_values)] + [
                             ('attribute', pa.GetAttr(n), lambda n=n: v.get_attr(n)) for n in
                             ['a', 'b', 'cc', 'odd name', 'u', 'nope', '__items__', '__all__', '_x', 'get_schema']]:
        if a.get_subschema_operation() in have:
          is_view(what, f(), m, P.from_actions(acts + [a]), action=repr(a), **kw)
        else:
          self.refused(what, f'{what}: a view of a path that does not exist', f, action=repr(a), **kw)
      for k in (0, -1, slice(1, None), slice(None, 1), slice(None, None, 2), None, 'a'):
        self.refused('item', 'something else than [:] gives a view', lambda: v[k], index=repr(k), **kw)
      for n in ('a', 'b', 'cc', 'd', 'odd name', 'u', 'with_attrs', '_y'):
        f = lambda: getattr(v, n)
        if not kd.slices.internal_is_compliant_attr_name(n):
          self.refused('dot', 'a name that is not usable with the dot gives a view', f, AttributeError, name=n, **kw)
        elif pa.GetAttr(n).get_subschema_operation() in have:
          is_view('dot', f(), m, P.from_actions(acts + [pa.GetAttr(n)]), name=n, **kw)
        else:
          self.refused('dot', 'a view of an attribute that does not exist', f, name=n, **kw)
      self.expect('children', 'the children of a view are not those of its path, in order',
                  [ops(x.get_path_from_root()) for x in v.get_children()],
                  [ops(P.from_actions(acts + [a])) for a, _ in ch], **kw)
      for x, (a, _) in zip(v.get_children(), ch):
        is_view('child', x, m, P.from_actions(acts + [a]), **kw)
      for d in (0, 1, 2, 3):
        want = sorted(ops(P.from_actions(acts + list(q))) for q in below(w, s, d))
        if len(want) > 2000:
          continue
        got = list(v.find_descendants(lambda x: True, max_delta_depth=d))
        self.expect('descendants', 'the descendants of a view are not those of its path up to the depth',
                    sorted(ops(x.get_path_from_root()) for x in got), want, depth=d, **kw)
        for x in got[-2:]:
          is_view('descendant', x, m, x.get_path_from_root(), **kw)
        odd = lambda p: len(str(p)) % 2
        self.expect('predicate', 'the descendants are not those that satisfy the predicate', sorted(
            ops(x.get_path_from_root()) for x in v.find_descendants(lambda x: odd(x.get_path_from_root()), max_delta_depth=d)),
                    sorted(ops(x.get_path_from_root()) for x in got if odd(x.get_path_from_root())), depth=d, **kw)
        for rx in (r'\S\W\D', 'a', r'^\.[ab]', r'\[:\]', 'b$', ''):
          self.expect('grep', 'the descendants are not those whose path matches', sorted(
              ops(x.get_path_from_root()) for x in v.grep_descendants(rx, max_delta_depth=d)),
                      sorted(ops(x.get_path_from_root()) for x in got if re.search(rx, x.get_path_from_root().to_string())),
                      depth=d, regex=rx, **kw)
      few = below(w, s, 2)[:9]
      self.expect('unbounded', 'without a limit there are fewer descendants', len(list(
          itertools.islice(v.find_descendants(lambda x: True), len(few)))), len(few), **kw)
      self.available(v, w, p, s)
      # data
      kids = [V(m, P.from_actions(acts + list(q))) for q in few] + [
          V(m, self.random_path(B, w.root.s, 5)[0]) for _ in range(3)]
      for f in (v.get, v.get_data_slice):
        a = [x for x in kids if rng.random() < .4]
        b = [x for x in kids if rng.random() < .2] + [v] * (rng.random() < .2)
        kws = {**({'populate': a} if a or rng.random() < .5 else {}),
               **({'populate_including_descendants': b} if b or rng.random() < .5 else {})}
        paths = lambda vs: {x.get_path_from_root() for x in vs}
        want = self.evaluate(m.get_data_slice(populate=paths(a) | {p}, populate_including_descendants=paths(b)), p)
        got = f(**kws)
        c.ev()
        if not same_slice(got, want):
          c.fail('data', 'the data of a view is not what the manager serves at the path', args=str(kws)[:500],
                 got=str(got), want=str(want), got_bag=str(clean(fk.facts(got.b)))[:500], want_bag=str(clean(fk.facts(want.b)))[:500], **kw)

    def stale(fs, m, p, good):
      """What a view says whose path does not exist any more."""
      q = P.from_actions([])
      v = self.stale_views.pop()
      kw = dict(path=str(p))
      is_view('stale', v, m, p)
      self.expect('stale-valid', 'a view of a path that is gone is valid', v.is_view_valid(), False, **kw)
      is_view('stale-root', v.get_root(), m, q)
      one = DS([1], Sch('INT32'), None, True)
      n = len(m.get_revision_history())
      files = dict(fs.files)
      for what, f in (
          ('get_schema', v.get_schema), ('get', v.get), ('get_data_slice', v.get_data_slice),
          ('get with populate', lambda: v.get(populate=[V(m)])), ('branch', v.branch),
          ('branch with description', lambda: v.branch(description='x')), ('children', v.get_children),
          ('update', lambda: v.update('a', one)), ('update with description', lambda: v.update('a', one, description='x')),
          ('assignment', lambda: setattr(v, 'a', one)), ('descendants', lambda: list(v.find_descendants(lambda x: True))),
          ('grep', lambda: list(v.grep_descendants('a'))), ('items', v.get_list_items), ('[:]', lambda: v[:]),
          ('keys', v.get_dict_keys), ('values', v.get_dict_values), ('attr', lambda: v.get_attr('a')), ('dot', lambda: v.a),
          ('filter', lambda: v.filter(kd.present)), ('select', lambda: v.select(kd.present)),
          ('creation', lambda: V(m, p))):
        self.refused('stale:' + what, f'{what} works on a view whose path is gone', f, **kw)
      self.expect('stale-files', 'a refused operation of a view wrote files', sorted(set(fs.files) - set(files)), [], **kw)
      self.expect('stale-history', 'a refused operation of a view made a revision', len(m.get_revision_history()), n, **kw)
      self.expect('stale-names', 'the names available on a view whose path is gone are wrong',
                  set(v.__all__) & {'get_schema', 'get', 'get_data_slice', 'branch', 'update', 'get_attr', 'filter', 'select',
                                    'get_children', 'a', 'b', 'get_list_items', 'get_dict_keys'}, set(), **kw)
      for k in range(len(p.actions) + 1):
        if k and k >= len(p.actions) - good:
          is_view('stale-ancestor', v.get_ancestor(k), m, P.from_actions(list(p.actions)[:len(p.actions) - k]))
        elif k:
          self.refused('stale-ancestor', 'an ancestor that is gone', lambda: v.get_ancestor(k), up=k, **kw)

    for n in (60, 130):
      fs, m, w, ts, pool = self.history(0)
      value = ts.slice(ts.wide(n), None, pool, 3)
      while value.v == [None]:
        value = ts.slice(ts.wide(n), None, pool, 3)
      b = fk.reach(value.v, value.s, value.b)
      nb = w.full().with_attrs(w=value.with_bag(b)).b
      w = World(w.root, None, None).grow(w, nb, ('update', '', '', 'w'))
      V(m).w = value
      self.same('large', 'an update with many parts is not served', m, w, 3)
      for q in ([], [pa.GetAttr('w')]):
        q = P.from_actions(q)
        navigate(m, w, q, self.evaluate(w.full(), q).s)
    for rnd in range(400 if c.thorough else 30):
      if c.enough():
        return
      fs, m, w, ts, pool = self.history(rng.randrange(0, 6))
      tab = dict(self.types_of)
      B = w.bags[-1].data
      c.ev(sample=f'{len(w.bags) - 1} updates')
      for _ in range(4):
        p, s = self.random_path(B, w.root.s, rng.randrange(0, 6))
        navigate(m, w, p, s)
        have = {a.get_subschema_operation() for a, _ in self.children(B, s)}
        for a in (pa.GetAttr('nope'), pa.ListExplode(), pa.DictGetKeys(), pa.DictGetValues()):
          if a.get_subschema_operation() not in have:
            self.refused('create', 'a view of a path that does not exist is created',
                         lambda: V(m, P.from_actions(list(p.actions) + [a])), path=str(p), action=repr(a))
      # equality
      m2 = m.get_readonly_copy()
      ps = [self.random_path(B, w.root.s)[0] for _ in range(4)]
      vs = [(V(x, p), x, ops(p)) for x in (m, m2) for p in ps + [P.from_actions(list(ps[0].actions))]]
      for a, x, p in vs:
        for b, y, q in vs:
          eq = x is y and p == q
          self.expect('equal', 'views are equal exactly if manager and path are', (a == b, a != b), (eq, not eq),
                      paths=(p, q), one_manager=x is y)
          if eq and hash(a) != hash(b):
            c.fail('hash', 'equal views have different hashes', path=p)
        for o in (None, 1, 'v', x, a.get_path_from_root(), (x, a.get_path_from_root())):
          self.expect('equal-other', 'a view equals something that is no view', (a == o, a != o), (False, True))
      class Sub(V):
        pass
      self.expect('equal-kind', 'a view equals one of another class', V(m, ps[0]) == Sub(m, ps[0]), False)
      # updates through views
      for k in range(rng.randrange(1, 4)):
        a, w = self.step(w, ts, pool, 400 + k)
        v = V(m, a['at_path'])
        n, x, d = a['attr_name'], a['attr_value'], a.get('description')
        mode = rng.randrange(3)
        if mode == 0 and kd.slices.internal_is_compliant_attr_name(n):
          setattr(v, n, (x, d) if d is not None else x)
        elif mode == 1 and d is not None:
          v.update(n, x, d)
        else:
          v.update(attr_name=n, attr_value=x, **({'description': d} if 'description' in a else {}))
        self.same('update', 'an update through a view is not the update of the manager at its path', m, w, update=str(a)[:300])
      one = DS([1], Sch('INT32'), None, True)
      for n in ('with_attrs', '_z', '__all__'):
        self.refused('assign', 'a name that is not usable with the dot is assigned', lambda: setattr(V(m), n, one), AttributeError, name=n)
      self.same('assign', 'a refused assignment changed the data', m, w)
      # branches
      p, s = self.random_path(w.bags[-1].data, w.root.s, rng.randrange(0, 5))
      d = rng.choice([None, '', 'fork'])
      b = V(m, p).branch(**({} if d is None else {'description': d}))
      wb = w.branch(-1, '/data/m', d)
      bm = b.get_manager()
      is_view('branch', b, bm, p)
      if bm is m:
        c.fail('branch-manager', 'the branch of a view is a view of the original', path=str(p))
      self.same('branch', 'the branch of a view does not serve the data of the view', bm, wb)
      self.types_of = {k: {} for k in tab}
      a, wb = self.step(wb, ts, pool, 450)
      V(bm, a['at_path']).update(a['attr_name'], a['attr_value'], a.get('description'))
      self.same('branch-own', 'updates of a branch are lost', bm, wb)
      self.same('branch-orig', 'updates of a branch show in the original', m, w)
      if p.actions:
        for f in (lambda: V(m).filter(kd.present), lambda: V(m).select(kd.present)):
          self.refused('filter-root', 'the root is filtered', f)
      # paths that cease to exist
      deep = [(q, len(q.actions)) for q in (self.random_path(w.bags[-1].data, w.root.s, 5)[0] for _ in range(6))
              if len(q.actions) > 1 and isinstance(q.actions[0], pa.GetAttr)]
      for q, _ in deep[:1]:
        self.stale_views = [V(m, q)]
        n = q.actions[0].attr_name
        m.update(at_path=P.from_actions([]), attr_name=n, attr_value=one)
        stale(fs, m, q, 1)

  def available(self, v, w, p, s):
    """The names listed for completion."""
    B = w.bags[-1].data
    n = len(p.actions)
    want = ['get_path_from_root', 'get_manager', 'is_view_valid', 'get_root', 'get_ancestor', 'get_schema', 'get_data_slice',
            'get', 'branch'] + ['get_parent', 'filter', 'select'] * (n >= 1) + ['get_grandparent'] * (n >= 2)
    ops = {a.get_subschema_operation() for a, _ in self.children(B, s)}
    if not s.prim:
      want += ['get_children', 'find_descendants', 'grep_descendants']
    if self.is_entity(B, s):
      names = [a.attr_name for a, _ in self.children(B, s)]
      want += ['update'] + ['get_attr'] * bool(names) + [
          x for x in names if x.isidentifier() and self.kd.slices.internal_is_compliant_attr_name(x)]
    elif self.path.ListExplode().get_subschema_operation() in ops:
      want += ['get_list_items']
    elif ops:
      want += ['get_dict_keys', 'get_dict_values']
    self.expect('names', 'the names available on a view are wrong', v.__all__, sorted(want), path=str(p))


def run(c):
  h = H(c)
  {'P24': h.schema_graph, 'P25': h.needed, 'P26': h.updates, 'P27': h.revisions, 'P28': h.branches,
   'P29': h.view_properties}[c.prop]()
