"""Executable contracts of DataBagManager (P16..P21) on the real class."""

import concurrent.futures
import itertools
import os
import shutil

import common
import fakekd


def setup():
  common.gen_protos('py/koladata/ext/storage/data_bag_manager_metadata.proto')
  kd = fakekd.install()
  concurrent.futures.ThreadPoolExecutor = fakekd.LazyExecutor
  concurrent.futures.as_completed = lambda fs, timeout=None: list(fs)
  concurrent.futures.wait = lambda fs, *a, **k: ([f.run() for f in fs], (set(fs), set()))[1]
  from koladata.ext.storage import data_bag_manager as m
  return kd, m


Bag = fakekd.FakeBag


class World:
  """Spec state: the ordered list of bags (name, data, deps, custom)."""

  def __init__(self, entries=()):
    self.e = list(entries)

  def names(self):
    return [x[0] for x in self.e]

  def closure(self, names, dependents=False):
    deps = {n: set(d) for n, _, d, _ in self.e}
    cur = set(names)
    if dependents:
      while True:
        new = cur | {n for n in deps if deps[n] & cur}
        if new == cur:
          break
        cur = new
    while True:
      new = cur | {d for n in cur for d in deps[n]}
      if new == cur:
        return cur
      cur = new

  def merged(self, names):
    out = {}
    for n, d, _, _ in self.e:
      if n in names:
        out.update(d)
    return out

  def view(self, cl=None):
    cl = set(self.names()) if cl is None else cl
    return tuple(
        (n, tuple(d.items()), tuple(sorted(self.closure([n]))), c)
        for n, d, _, c in self.e if n in cl)


def custom_of(a):
  if a is None:
    return None
  return (a.type_url, bytes(a.value))


def observe(m):
  """Everything the public interface shows of a manager."""
  names = m.get_available_bag_names()
  order = m.canonical_topological_sorting(names)
  bags = m.load_bags(names)
  meta = m.get_custom_metadata(names)
  if set(bags) != set(names) or set(meta) != set(names):
    return ('inconsistent', tuple(sorted(bags)), tuple(sorted(meta)), tuple(sorted(names)))
  return tuple((n, tuple(bags[n].data.items()), tuple(sorted(m.load_bags([n]))),
                custom_of(meta[n])) for n in order)


def gen_entries(rng, existing, n, prefix, odd=True):
  out = []
  names = list(existing)
  for i in range(n):
    nm = f'{prefix}{i}' if rng.random() < .75 or not odd else rng.choice(
        [f'{prefix} é/{i}*', f'{prefix.upper()}{max(i - 1, 0)}', f' {prefix}{max(i - 1, 0)}', f'{prefix}{max(i - 1, 0)} ', ''])
    if nm in names:
      nm = f'{prefix}{i}'
    deps = [x for x in names if rng.random() < min(.5, 2.0 / (len(names) + 1))]
    rng.shuffle(deps)
    keys = rng.sample(['k0', 'k1', 'k2', 'k3'], rng.randrange(3))
    data = {k: f'{nm}:{k}' for k in keys}
    data['only:' + nm] = i
    c = None if rng.random() < .6 else rng.choice(
        [('type/' + nm, bytes([rng.randrange(256) for _ in range(3)]))] * 4 + [('', b''), ('t', b''), ('', b'v')])
    out.append((nm, data, tuple(deps), c))
    names.append(nm)
  return out


def to_add(m, entries):
  from google.protobuf import any_pb2
  out = []
  for n, d, deps, c in entries:
    kw = {}
    if c is not None:
      kw['custom_metadata'] = any_pb2.Any(type_url=c[0], value=c[1])
    out.append(m.BagToAdd(n, Bag(d), tuple(deps), **kw))
  return out


class H:

  def __init__(self, c):
    self.c = c
    self.kd, self.m = setup()
    self.M = self.m.DataBagManager
    from koladata.ext.storage import global_cache_lib
    self.cache = global_cache_lib.get_global_cache()
    self.rng = c.rng

  def clear(self):
    self.cache.clear()

  def fresh(self, fs, d='/data/x'):
    self.clear()
    return self.M.create_from_dir(d, fs=fs)

  def start(self, sizes=(1, 2), d='/data/x', fs=None):
    fs = fs or fakekd.MemFS()
    m = self.M.create_new(d, fs=fs)
    w = World()
    for j, n in enumerate(sizes):
      es = gen_entries(self.rng, w.names(), n, f'b{j}_')
      m.add_bags(to_add(self.m, es))
      w.e += es
    return fs, m, w

  def expect(self, key, what, got, want, **kw):
    self.c.ev()
    if got != want:
      self.c.fail(key, what, got=got, want=want, **kw)

  # -- P16 -------------------------------------------------------------------

  def atomic(self):
    rng, c = self.rng, self.c
    for rnd in range(400 if c.thorough else 40):
      if c.enough():
        return
      fakekd.LazyExecutor.order = ('late', 'early', 'reverse')[rnd % 3]
      fs0, m0, w = self.start([rng.randrange(3) for _ in range(rng.randrange(1, 3))])
      base = fs0.clone()
      new = gen_entries(rng, w.names(), rng.randrange(0, 4), 'n')
      w2 = World(w.e + new)
      # plain success
      fs = base.clone()
      m = self.fresh(fs)
      self.expect('reopen', 'a reopened manager does not show what was added', observe(m), w.view())
      n0 = len(fs.log)
      m.add_bags(to_add(self.m, new))
      nops = len(fs.log) - n0
      ops = [x[0] for x in fs.log[n0:]]
      self.expect('success-instance', 'after add_bags the manager does not show the added bags',
                  observe(m), w2.view(), added=[(n, d) for n, _, d, _ in new])
      self.expect('success-disk', 'after add_bags a new manager on the directory does not show the added bags',
                  observe(self.fresh(fs)), w2.view())
      self.expect('overwritten', 'add_bags overwrote an existing file', fs.overwritten, [])
      committed = {p: b for p, b in base.files.items()}
      self.expect('files-kept', 'add_bags changed or removed files committed before',
                  {p: fs.files.get(p) for p in committed}, committed)
      # a crash or a failure at every operation
      for k in range(nops):
        for mode in ('crash', 'fail', 'fail-after', 'crash-after'):
          if c.enough():
            return
          fs = base.clone()
          m = self.fresh(fs)
          n0 = len(fs.log)
          state = {'dead': False}

          def hook(i, name, args):
            if state['dead'] or (i - n0 == k and mode == 'crash'):
              state['dead'] = True
              raise fakekd.Crash()
            if i - n0 == k and mode == 'fail':
              raise fakekd.Fault('injected')

          def after(i, name, args):
            if i - n0 == k and mode == 'fail-after':
              raise fakekd.Fault('injected')
            if i - n0 == k and mode == 'crash-after':
              state['dead'] = True
              raise fakekd.Crash()

          fs.hook, fs.after = hook, after
          raised = None
          try:
            m.add_bags(to_add(self.m, new))
          except fakekd.Crash as e:
            raised = e
          except Exception as e:  # pylint: disable=broad-except
            raised = e
          fs.hook = fs.after = None
          where = f'{mode} at operation {k} ({ops[k]}) of {ops}'
          c.ev(sample=where)
          disk = self.try_observe(lambda: self.fresh(fs))
          if disk not in (w.view(), w2.view()):
            c.fail('torn', 'after a failure during add_bags the directory shows neither the old nor the new state',
                   where=where, got=disk, old=w.view(), new=w2.view())
          if fs.overwritten or any(fs.files.get(p) != b for p, b in committed.items()):
            c.fail('overwritten-fail', 'a failing add_bags changed committed files', where=where)
          if raised is None:
            # a swallowed fault is fine as long as everything is there
            if disk != w2.view():
              c.fail('silent', 'add_bags returned normally but the bags are not persisted', where=where,
                     got=disk, want=w2.view())
          if mode.startswith('fail'):
            self.clear()
            mem = self.try_observe(lambda: m)
            if mem not in ((w2.view(),) if raised is None else (w.view(), disk)):
              c.fail('instance', 'a failed add_bags left the manager in a state that is not on disk',
                     where=where, got=mem, old=w.view(), new=w2.view(), disk=disk)
            if mode == 'fail' and raised is not None and disk == w.view():
              try:
                m.add_bags(to_add(self.m, new))
                self.expect('retry', 'a retried add_bags lost data', observe(self.fresh(fs)), w2.view(), where=where)
              except Exception as e:  # pylint: disable=broad-except
                c.fail('retry-raise', 'add_bags cannot be retried after a transient failure', where=where, error=e)
    # validation is all-or-nothing
    for rnd in range(40):
      if c.enough():
        return
      fs, m, w = self.start([2, 1])
      good = gen_entries(rng, w.names(), 3, 'n')
      bad = list(good)
      kind = rnd % 5
      i = rng.randrange(3)
      n, d, deps, cm = bad[i]
      if kind == 0:
        bad[i] = (w.names()[0], d, deps, cm)  # existing name
      elif kind == 1:
        bad[2] = (bad[0][0],) + bad[2][1:]  # duplicate in the call
      elif kind == 2:
        bad[i] = (n, d, deps + ('nowhere',), cm)
      elif kind == 3:
        bad[i] = (n, d, deps + (n,), cm)  # itself
      else:
        bad[0] = (bad[0][0], d, (bad[2][0],), cm)  # a later bag
      files = dict(fs.files)
      before = observe(m)
      c.ev(sample=f'invalid add {kind}')
      try:
        m.add_bags(to_add(self.m, bad))
        c.fail(f'accepted{kind}', 'add_bags accepted a duplicate name or a dependency that was not added before',
               bags=[(b[0], b[2]) for b in bad], existing=w.names())
      except ValueError:
        pass
      self.expect(f'invalid-mem{kind}', 'a rejected add_bags changed the manager', observe(m), before)
      if fs.files != files:
        c.fail(f'invalid-disk{kind}', 'a rejected add_bags wrote to the directory',
               files=sorted(set(fs.files) ^ set(files)))
      m.add_bags(to_add(self.m, good))
      self.expect('after-invalid', 'a valid add after a rejected one lost data',
                  observe(self.fresh(fs)), World(w.e + good).view())
    # large batches
    for size in (60, 300):
      if c.enough():
        return
      fs0, _, w = self.start([2])
      new = gen_entries(rng, w.names(), size, 'L')
      w2 = World(w.e + new)
      m = self.fresh(fs0)
      base = fs0.clone()
      m.add_bags(to_add(self.m, new))
      self.expect('large', 'a large batch of bags is not persisted', self.try_observe(lambda: self.fresh(fs0)), w2.view(),
                  bags=size)
      nops = len(fs0.log)
      for k in [0, size, 3 * size - 5, 3 * size - 2] + [rng.randrange(3 * size) for _ in range(5)]:
        fs = base.clone()
        m = self.fresh(fs)
        n0, seen = len(fs.log), []

        def hook(i, name, args):
          if name not in ('open', 'write', 'close') or i < n0:
            return
          seen.append(i)
          if len(seen) == k + 1:
            raise fakekd.Fault('injected')

        fs.hook = hook
        try:
          m.add_bags(to_add(self.m, new))
          raised = False
        except Exception:  # pylint: disable=broad-except
          raised = True
        fs.hook = None
        c.ev(sample=f'large batch of {size}, failure at {k}')
        disk = self.try_observe(lambda: self.fresh(fs))
        if disk not in (w.view(), w2.view()) or (not raised and disk != w2.view()):
          c.fail('large-torn', 'a large batch that fails is partly committed', bags=size, at=k, raised=raised)
    # long histories, reopened every time
    fs = fakekd.MemFS()
    self.M.create_new('/data/x', fs=fs)
    w = World()
    for j in range(13):
      m = self.fresh(fs)
      es = gen_entries(rng, w.names(), 1, f'h{j}_')
      m.add_bags(to_add(self.m, es))
      w.e += es
      self.expect('history', 'a new manager does not show the latest committed state',
                  observe(self.fresh(fs)), w.view(), updates=j + 1)
      # the same instance again
    m = self.fresh(fs)
    for j in range(4):
      es = gen_entries(rng, w.names(), 1, f'g{j}_')
      m.add_bags(to_add(self.m, es))
      w.e += es
    self.expect('history2', 'updates by one instance are lost', observe(self.fresh(fs)), w.view())

  def try_observe(self, mk):
    try:
      return observe(mk())
    except Exception as e:  # pylint: disable=broad-except
      return ('cannot be read', repr(e))

  # -- P17 -------------------------------------------------------------------

  def writers(self):
    rng, c = self.rng, self.c
    for rnd in range(400 if c.thorough else 70):
      if c.enough():
        return
      fakekd.LazyExecutor.order = ('late', 'early', 'reverse')[rnd % 3]
      fs0, _, w = self.start([rng.randrange(1, 3)] * (rnd % 3 + 1))
      base = fs0.clone()
      a = gen_entries(rng, w.names(), rng.randrange(0, 3), 'a')
      b = gen_entries(rng, w.names(), rng.randrange(0, 3), 'b_')
      if rnd % 4 == 3:
        b = [(n.replace('b_', 'a'), d, deps, cm) for n, d, deps, cm in b]  # same names
        b = [(n, d, tuple(x for x in deps if x in w.names()), cm) for n, d, deps, cm in b]
        if len({x[0] for x in b}) != len(b):
          continue
      wa, wb = World(w.e + a), World(w.e + b)
      k = 0
      while not c.enough():
        fs = base.clone()
        m1 = self.fresh(fs)
        m2 = self.fresh(fs)
        n0 = len(fs.log)
        st = {'ran': False, 'err': None, 'in': False}

        def hook(i, name, args):
          if st['in'] or st['ran']:
            return
          if i - n0 == k:
            st['in'] = True
            try:
              m2.add_bags(to_add(self.m, b))
            except Exception as e:  # pylint: disable=broad-except
              st['err'] = e
            st['in'] = False
            st['ran'] = True

        fs.hook = hook
        err = None
        try:
          m1.add_bags(to_add(self.m, a))
        except Exception as e:  # pylint: disable=broad-except
          err = e
        fs.hook = None
        late = not st['ran']
        if late:
          try:
            m2.add_bags(to_add(self.m, b))
          except Exception as e:  # pylint: disable=broad-except
            st['err'] = e
        where = f'second writer commits before operation {k} of the first'
        c.ev(sample=where)
        disk = self.try_observe(lambda: self.fresh(fs))
        won = [x for x, e in (('first', err), ('second', st['err'])) if e is None]
        if len(won) != 1:
          c.fail('both' if won else 'none', 'two managers opened at the same state: exactly one may commit',
                 where=where, committed=won, errors=[repr(err), repr(st['err'])])
        elif disk != (wa if won == ['first'] else wb).view():
          c.fail('lost', 'a concurrent writer lost or corrupted the committed update', where=where, won=won,
                 got=disk)
        if fs.overwritten:
          c.fail('clobber', 'a concurrent writer overwrote a file of the other', where=where,
                 files=[x[0] for x in fs.overwritten])
        lose = m2 if won == ['first'] else m1
        if len(won) == 1:
          self.clear()
          self.expect('loser', 'the manager whose update was refused changed its state', self.try_observe(lambda: lose), w.view(), where=where)
          try:
            lose.add_bags([])
            c.fail('stale', 'a stale manager could commit after its directory moved on', where=where)
          except Exception:  # pylint: disable=broad-except
            pass
          self.expect('winner', 'the winner\'s state was lost', self.try_observe(lambda: self.fresh(fs)),
                      (wa if won == ['first'] else wb).view(), where=where)
        if late:
          break
        k += 1

  # -- P18 -------------------------------------------------------------------

  def closures(self):
    rng, c = self.rng, self.c
    # all DAGs over 3 bags, then random ones
    cases = []
    for d1, d2 in itertools.product(range(2), range(4)):
      cases.append(World([('a', {'x': 'a'}, (), None),
                          ('b', {'x': 'b'}, ('a',) if d1 else (), None),
                          ('c', {'x': 'c'}, tuple(n for i, n in enumerate('ab') if d2 >> i & 1), None)]))
    for _ in range(3000 if c.thorough else 400):
      w = World()
      w.e += gen_entries(rng, [], rng.randrange(1, 9), 'r')
      cases.append(w)
    chain = World()
    for i in range(60):
      chain.e.append((f'c{i}', {'x': i}, (f'c{i-1}',) if i else (), None))
    cases.append(chain)
    for size in (40, 300):  # one bag that depends on many, many that depend on one
      many = World([(f'm{i}', {'x': i}, (), None) for i in range(size)])
      many.e.append(('all', {'x': 'all'}, tuple(f'm{i}' for i in range(size)), None))
      cases.append(many)
      cases.append(World([('one', {'x': 1}, (), None)] + [(f'm{i}', {'x': i}, ('one',), None) for i in range(size)]))
    for w in cases:
      if c.enough():
        return
      fs = fakekd.MemFS()
      m = self.M.create_new('/data/x', fs=fs)
      cut = rng.randrange(len(w.e) + 1)
      m.add_bags(to_add(self.m, w.e[:cut]))
      m.add_bags(to_add(self.m, w.e[cut:]))
      if rng.random() < .5:
        m = self.fresh(fs)
      subs = [w.names(), w.names()[:1], w.names()[-1:]] + [
          [n for n in w.names() if rng.random() < .4] for _ in range(3)]
      for sub in subs:
        for dep in (False, True):
          want = w.closure(sub, dep)
          if rng.random() < .4:
            self.clear()
          elif rng.random() < .5:
            self.clear()
            m.load_bags([n for n in w.names() if rng.random() < .5])
          cached = self.rng.choice([list, tuple, set, frozenset])(sub)
          n0 = len(fs.log)
          opened = None
          got = m.load_bags(cached, with_all_dependents=dep)
          opened = {x[1] for x in fs.log[n0:] if x[0] == 'open'}
          if not dep:
            self.expect('default', 'without with_all_dependents dependents are loaded too, or bags are missing',
                        set(m.load_bags(cached)), want, asked=sub)
            if sub:
              self.expect('default-minimal', 'get_minimal_bag without with_all_dependents does not hold the closure',
                          m.get_minimal_bag(cached).data, w.merged(want), asked=sub)
          self.expect('closure', 'load_bags does not return exactly the dependency closure',
                      set(got), want, asked=sub, with_all_dependents=dep,
                      deps={n: d for n, _, d, _ in w.e})
          self.expect('bag-data', 'load_bags returns the wrong data for a bag',
                      {n: b.data for n, b in got.items()}, {n: d for n, d, _, _ in w.e if n in set(got)})
          if len(opened) > len(want):
            c.fail('too-many-files', 'load_bags reads files of bags that were not needed',
                   opened=sorted(opened), want=sorted(want))
          if sub:
            mb = m.get_minimal_bag(cached, with_all_dependents=dep)
            self.expect('minimal', 'get_minimal_bag does not hold the closure merged in the order of addition',
                        mb.data, w.merged(want), asked=sub, with_all_dependents=dep)
          order = m.canonical_topological_sorting(frozenset(want))
          self.expect('order', 'the canonical sorting is not the order of addition', list(order),
                      [n for n in w.names() if n in want])
      for bad in (['zz'], [w.names()[0], 'zz'], [''] if '' not in w.names() else ['zz', '']):
        for f in (m.load_bags, m.get_minimal_bag, m.get_custom_metadata):
          c.ev()
          try:
            f(bad)
            c.fail('unknown', 'an unknown bag name is accepted', fn=f.__name__, names=bad)
          except ValueError:
            pass
      meta = m.get_custom_metadata(w.names())
      self.expect('custom', 'get_custom_metadata does not return what was stored',
                  {k: custom_of(v) for k, v in meta.items()}, {n: cm for n, _, _, cm in w.e})
      self.expect('names', 'get_available_bag_names is wrong', set(m.get_available_bag_names()), set(w.names()))

  # -- P19 -------------------------------------------------------------------

  def cached(self):
    """The cache never changes what is loaded."""
    rng, c = self.rng, self.c
    for rnd in range(300 if c.thorough else 60):
      if c.enough():
        return
      self.cache.set_max_total_bytes_of_entries_in_cache(rng.choice([0, 150, 400, 10**9]))
      fs = fakekd.MemFS()
      worlds = []
      self.clear()
      for d in rng.choice([('/data/x', '/data/y'), ('/one/data', '/two/data'), ('/data/x', '/data/x/in'),
                           ('/d/a b', '/d/a', '/d/b'), ('/x/y/z', '/y/z', '/x/z'), ('/data/x', '/data/x')]):
        if fs.exists(d):  # a new manager in place of a deleted one
          for p in [p for p in fs.files if p.startswith(d + '/')]:
            fs.remove(p)
          worlds.pop()
        m = self.M.create_new(d, fs=fs)
        # the same bag names with different data in two directories
        es = gen_entries(rng, [], 4, 's')
        es = [(f's{i}', {**x[1], 'dir': d}, (), x[3]) for i, x in enumerate(es)]
        m.add_bags(to_add(self.m, es))
        worlds.append([m, World(es), d])
      for _ in range(6):
        m, w, d = rng.choice(worlds)
        sub = [n for n in w.names() if rng.random() < .6]
        if rng.random() < .3:
          m = self.M.create_from_dir(d, fs=fs)
        got = m.load_bags(sub)
        self.expect('cache-data', 'a bag loaded with a warm cache is not the bag that was added',
                    {n: b.data for n, b in got.items()},
                    {n: x for n, x, _, _ in w.e if n in sub}, dir=d)
      # a branch shares the files of the original; both add a bag of one name
      m, w, d = worlds[0]
      out = f'/br/{rnd}'
      m = self.M.create_from_dir(d, fs=fs)
      m.create_branch(w.names(), output_dir=out, fs=fs)
      mb = self.M.create_from_dir(out, fs=fs)
      wb = World(w.e)
      w = World(w.e)
      for mm, ww, tag in ((m, w, 'original'), (mb, wb, 'branch')):
        es = [('same', {'by': tag}, (w.names()[0],), None)]
        mm.add_bags(to_add(self.m, es))
        ww.e = ww.e + es
      if rng.random() < .5:
        m, mb = self.M.create_from_dir(d, fs=fs), self.M.create_from_dir(out, fs=fs)
      for _ in range(2):
        for mm, ww, tag in rng.sample([(m, w, 'original'), (mb, wb, 'branch')], 2):
          self.expect('cache-branch', 'with a warm cache a manager returns the bag of another directory',
                      {n: b.data for n, b in mm.load_bags(ww.names()).items()},
                      {n: x for n, x, _, _ in ww.e}, of=tag)
      # a failing read neither loses nor replaces anything later
      self.clear()
      m = self.M.create_from_dir(d, fs=fs)
      n0, k = len(fs.log), rng.randrange(12)

      def hook(i, name, args):
        if i - n0 == k:
          raise fakekd.Fault('injected')

      fs.hook = hook
      try:
        m.load_bags(w.names())
      except OSError:
        pass
      fs.hook = None
      self.expect('cache-fault', 'after a failed load a later load returns wrong bags',
                  {n: b.data for n, b in m.load_bags(w.names()).items()},
                  {n: x for n, x, _, _ in w.e})
    # A manager without a cache.
    self.clear()
    fs, m, w = self.start([3, 2])
    for mk in (lambda: m, lambda: self.M.create_from_dir('/data/x', fs=fs)):
      mm = mk()
      mm.bag_cache = None
      es = gen_entries(rng, w.names(), 2, f'nc{len(w.e)}_')
      mm.add_bags(to_add(self.m, es))
      w = World(w.e + es)
      self.expect('no-cache', 'a manager without a cache does not load what was added',
                  self.try_observe(lambda: mm), w.view())
    # A foreign value in the cache must not be returned.
    fs, m, w = self.start([3])
    self.clear()
    m.load_bags(w.names())
    self.cache.set_max_total_bytes_of_entries_in_cache(10**9)

  # -- P20 -------------------------------------------------------------------

  def relative(self):
    """Directories given relative to the current one."""
    rng = self.rng
    root = os.path.join(common.scratch(), 'rel')
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
      for d, out in (('m', 'b'), ('in/m', 'out/b'), ('./p/m', 'p/b'), ('x/y', 'x/y/z'), (os.path.join(root, 'abs'), 'rel_b'),
                     ('rel_m', os.path.join(root, 'abs_b'))):
        w = World(gen_entries(rng, [], 3, 'o', odd=False))
        m = self.M.create_new(d)
        m.add_bags(to_add(self.m, w.e))
        for kind in ('branch', 'extract'):
          o = out + kind
          (m.create_branch if kind == 'branch' else m.extract_bags)(w.names(), output_dir=o)
          self.clear()
          self.expect(f'{kind}-relative', f'{kind}: data is lost when directories are given relative to the current one',
                      self.try_observe(lambda: self.M.create_from_dir(o)), w.view(), dir=d, out=o)
        o2 = out + '2'
        self.M.create_from_dir(out + 'branch').create_branch(w.names(), output_dir=o2)
        self.clear()
        self.expect('branch-relative', 'a branch of a branch loses data when directories are given relative to the current one',
                    self.try_observe(lambda: self.M.create_from_dir(o2)), w.view(), dir=d, out=o2)
    finally:
      os.chdir(cwd)
      shutil.rmtree(root, True)

  def branches(self):
    rng, c = self.rng, self.c
    self.relative()
    for rnd in range(600 if c.thorough else 200):
      if c.enough():
        return
      fs, m, w = self.start([rng.randrange(1, 4), rng.randrange(0, 3), 1])
      if rng.random() < .5:
        m = self.fresh(fs)
      sub = [n for n in w.names() if rng.random() < .5]
      dep = rng.random() < .5
      for kind in ('branch', 'extract'):
        want = w.closure(sub, dep)
        out = f'/out/{kind}{rnd}'
        if rng.random() < .3:
          fs.make_dirs(out)
        before = {p: b for p, b in fs.files.items()}
        self.clear()
        fn = m.create_branch if kind == 'branch' else m.extract_bags
        fn(sub, with_all_dependents=dep, output_dir=out, fs=fs)
        c.ev(sample=f'{kind} {sub} {dep}')
        m2 = self.try_open(fs, out)
        got = self.try_observe(lambda: self.fresh(fs, out))
        self.expect(f'{kind}-content',
                    f'{kind}: the new directory does not hold exactly the closure, in order, with its data, dependencies and custom metadata',
                    got, w.view(want), asked=sub, with_all_dependents=dep)
        self.expect(f'{kind}-source', f'{kind} changed the original manager', observe(m), w.view())
        self.expect(f'{kind}-files', f'{kind} changed existing files', {p: fs.files.get(p) for p in before}, before)
        if got != w.view(want):
          continue
        # independence: both go on
        wb = World([x for x in w.e if x[0] in want])
        e1 = gen_entries(rng, w.names(), 1, f'own{rnd}{kind}')
        m.add_bags(to_add(self.m, e1))
        w.e += e1
        e2 = gen_entries(rng, wb.names(), 2, f'br{rnd}{kind}')
        mb = self.fresh(fs, out)
        mb.add_bags(to_add(self.m, e2))
        wb.e += e2
        self.expect(f'{kind}-indep1', f'{kind}: later updates of the original show in the {kind} or are lost',
                    self.try_observe(lambda: self.fresh(fs, out)), wb.view())
        self.expect(f'{kind}-indep2', f'{kind}: updates of the {kind} show in the original or lose its data',
                    self.try_observe(lambda: self.fresh(fs)), w.view())
        # a branch of the branch
        out2 = out + '_second'
        sub2 = [n for n in wb.names() if rng.random() < .6]
        self.fresh(fs, out).create_branch(sub2, output_dir=out2, fs=fs)
        self.expect(f'{kind}-twice', f'a branch of a {kind} loses data',
                    self.try_observe(lambda: self.fresh(fs, out2)), wb.view(wb.closure(sub2)))
        # an output directory in use is refused
        files = dict(fs.files)
        for od, junk in (('/junk/a', 'file'), ('/junk/b', 'sub/dir/x.y'), ('/junk/c', 'a.txt'), ('/junk/d', 'data_bags/f')):
          if not fs.exists(od + '/' + junk):
            fs.make_dirs(os.path.dirname(od + '/' + junk))
            with fs.open(od + '/' + junk, 'wb') as f:
              f.write(b'junk')
        files = dict(fs.files)
        for od in (out, '/data/x', '/junk/a', '/junk/b', '/junk/c', '/junk/d'):
          c.ev()
          try:
            fn(sub, output_dir=od, fs=fs)
            c.fail(f'{kind}-nonempty', f'{kind} into a directory that is not empty is accepted', dir=od)
          except ValueError:
            pass
        self.expect(f'{kind}-refused', f'a refused {kind} changed files', fs.files, files)
        try:
          fn(['nope'], output_dir=f'/out/{kind}_{rnd}_bad', fs=fs)
          c.fail(f'{kind}-unknown', f'{kind} accepts an unknown bag name')
        except ValueError:
          pass
        m = self.fresh(fs)
    # the output is accessed through the file system given
    for kind in ('branch', 'extract'):
      fs, m, w = self.start([2, 2])
      fs2 = fs.alias()
      n0 = len(fs.log)
      (m.create_branch if kind == 'branch' else m.extract_bags)(w.names()[:2], output_dir='/o', fs=fs2)
      bad = [x for x in fs.log[n0:] if any(isinstance(y, str) and y.startswith('/o') for y in x[1:])]
      c.ev(sample=f'{kind} through the file system given')
      if bad:
        c.fail(f'{kind}-fs', f'{kind} accesses the output directory past the file system given', operations=bad[:5])
      self.expect(f'{kind}-fs-content', f'{kind} through another file system object loses data',
                  self.try_observe(lambda: self.fresh(fs, '/o')), w.view(w.closure(w.names()[:2])))
    fs, m, w = self.start([2, 2])
    fs2 = fakekd.MemFS()
    c.ev(sample='extract to another storage')
    try:
      m.extract_bags(w.names(), output_dir='/o', fs=fs2)
      self.expect('extract-storage', 'bags extracted to another storage are not complete there',
                  self.try_observe(lambda: self.fresh(fs2, '/o')), w.view())
    except OSError as e:
      c.fail('extract-storage-error', 'extract_bags to another storage fails', error=e)
    # the branch survives on another file system object of the same files
    # crash during create_branch / extract_bags leaves the original untouched
    fs0, _, w = self.start([2, 2])
    for kind in ('branch', 'extract'):
      k = 0
      while not c.enough():
        fs = fs0.clone()
        m = self.fresh(fs)
        n0 = len(fs.log)

        def hook(i, name, args):
          if i - n0 >= k and st['on']:
            st['hit'] = True
            raise fakekd.Crash()

        st = {'on': True, 'hit': False}
        fs.hook = hook
        try:
          (m.create_branch if kind == 'branch' else m.extract_bags)(w.names(), output_dir='/o', fs=fs)
        except fakekd.Crash:
          pass
        fs.hook = None
        c.ev()
        if fs.overwritten or any(fs.files.get(p) != b for p, b in fs0.files.items()):
          c.fail(f'{kind}-crash', f'a crash during {kind} changed the original directory', op=k)
        if '/o/metadata-000000000000.pb' in fs.files and kind == 'branch':
          self.expect('branch-crash-content', 'a crash during create_branch leaves a readable but wrong branch',
                      self.try_observe(lambda: self.fresh(fs, '/o')), w.view(), op=k)
        if not st['hit']:
          break
        k += 1

  def try_open(self, fs, d):
    try:
      return self.M.create_from_dir(d, fs=fs)
    except Exception:  # pylint: disable=broad-except
      return None

  # -- P21 -------------------------------------------------------------------

  def opening(self):
    rng, c = self.rng, self.c
    odd = ['/data/plain', '/data/with space', '/data/[x]', '/data/a*b', '/data/q?', '/data/[0-9]',
           '/data/é', '/data/deep/er/dir']
    for d in odd:
      if c.enough():
        return
      fs = fakekd.MemFS()
      # decoys whose names a pattern could match
      for dd in ('/data/x', '/data/aXb', '/data/qq', '/data/5', '/data/b'):
        mm = self.M.create_new(dd, fs=fs)
        mm.add_bags(to_add(self.m, [('decoy', {'z': 1}, (), None)]))
      before = dict(fs.files)
      c.ev(sample=f'directory {d}')
      try:
        m = self.M.create_new(d, fs=fs)
        self.expect('new-empty:' + d, 'a new manager is not empty', set(m.get_available_bag_names()), set())
        es = gen_entries(rng, [], 2, 'o')
        m.add_bags(to_add(self.m, es))
        self.clear()
        m2 = self.M.create_from_dir(d, fs=fs)
        self.expect('reopen:' + d, 'a manager cannot be reopened from its own directory name',
                    observe(m2), World(es).view())
      except ValueError as e:
        c.fail('reopen-error:' + d, 'a manager cannot be created in and reopened from a directory of this name',
               dir=d, error=e)
        continue
      self.expect('decoys', 'other directories changed', {p: fs.files.get(p) for p in before}, before)
      files = dict(fs.files)
      for bad in (d,):
        try:
          self.M.create_new(bad, fs=fs)
          c.fail('new-nonempty:' + d, 'create_new accepts a directory that is not empty', dir=d)
        except ValueError:
          pass
        self.expect('new-refused', 'a refused create_new changed files', fs.files, files)
      f2 = fakekd.MemFS()
      f2.make_dirs(d)
      with f2.open(d + '/some.txt', 'wb') as f:
        f.write(b'mine')
      try:
        self.M.create_new(d, fs=f2)
        c.fail('new-foreign:' + d, 'create_new accepts a directory with other files', dir=d)
      except ValueError:
        pass
      if f2.files != {d + '/some.txt': b'mine'}:
        c.fail('new-foreign-files:' + d, 'a refused create_new changed the directory', dir=d)
    fs = fakekd.MemFS()
    for mk, why in ((lambda: self.M.create_from_dir('/nowhere', fs=fs), 'a missing directory'),
                    (lambda: (fs.make_dirs('/empty'), self.M.create_from_dir('/empty', fs=fs)), 'an empty directory')):
      c.ev()
      try:
        mk()
        c.fail('open-' + why, f'create_from_dir accepts {why}')
      except ValueError:
        pass
    self.expect('open-no-write', 'a refused create_from_dir wrote files', fs.files, {})
    try:
      self.M(internal_call=object(), persistence_dir='/p', fs=fs, metadata=None)
      c.fail('ctor', 'the private constructor can be called directly')
    except ValueError:
      pass
    # two creators of one directory
    es = gen_entries(rng, [], 2, 'first', odd=False)
    for k in range(60):
      fs = fakekd.MemFS()
      st = {'in': False, 'done': False}

      def hook(i, name, args):
        if i == k and not st['in']:
          st['in'] = True
          try:
            self.M.create_new('/data/r', fs=fs).add_bags(to_add(self.m, es))
            st['done'] = True
          except ValueError:
            pass

      fs.hook = hook
      try:
        self.M.create_new('/data/r', fs=fs)
      except ValueError:
        pass
      fs.hook = None
      c.ev()
      if not st['in']:
        break
      got = self.try_observe(lambda: self.fresh(fs, '/data/r'))
      if fs.overwritten or got != World(es if st['done'] else []).view():
        c.fail('two-creators', 'create_new on a directory that somebody else creates meanwhile harms it', step=k,
               overwritten=[x[0] for x in fs.overwritten], got=got)
        break
    # histories: the latest committed state is shown, whatever its number
    for rnd in range(60 if c.thorough else 10):
      if c.enough():
        return
      fs = fakekd.MemFS()
      m = self.M.create_new('/data/h', fs=fs)
      w = World()
      n = rng.choice([0, 1, 2, 8, 9, 10, 11, 12, 20]) if rnd else 102
      for j in range(n):
        es = gen_entries(rng, w.names()[-3:], rng.randrange(0, 2), f'h{j}_', odd=False)
        if rng.random() < .2:
          m = self.M.create_from_dir('/data/h', fs=fs)
        m.add_bags(to_add(self.m, es))
        w.e += es
        if j > 96 or rng.random() < .2:
          self.expect('open-history', 'an opened manager does not show the latest committed state',
                      self.try_observe(lambda: self.fresh(fs, '/data/h')), w.view(), updates=j + 1)
      self.expect('open-history', 'an opened manager does not show the latest committed state',
                  self.try_observe(lambda: self.fresh(fs, '/data/h')), w.view(), updates=n)
      if rnd == 0:
        continue
      # somebody commits while the directory is opened
      base = fs.clone()
      es = gen_entries(rng, w.names(), 1, 'late')
      w2 = World(w.e + es)
      k = 0
      while not c.enough():
        fs = base.clone()
        other = self.fresh(fs, '/data/h')
        n0, st = len(fs.log), {'done': False, 'in': False}

        def hook(i, name, args):
          if i - n0 == k and not st['in']:
            st['in'] = True
            other.add_bags(to_add(self.m, es))
            st['done'] = True

        fs.hook = hook
        got = self.try_observe(lambda: self.fresh(fs, '/data/h'))
        fs.hook = None
        c.ev()
        if got not in (w.view(), w2.view()):
          c.fail('open-concurrent', 'a directory opened while somebody commits shows neither the old nor the new state',
                 op=k, got=got, old=w.view(), new=w2.view())
        if not st['done'] or k > 5:
          break
        k += 1
    # large update numbers
    for n in (99, 100, 999, 9999, 99999, 999999, 9999999, 99999999, 10**9 - 1, 10**10, 10**11 - 1):
      fs, m, w = self.start([2, 1], d='/data/n')
      newest = max(p for p in fs.files if os.path.basename(p).startswith('metadata-'))
      meta = self.m.metadata_pb2.DataBagManagerMetadata.FromString(fs.files[newest])
      meta.metadata_update_number = n
      fs.files[f'/data/n/metadata-{n:012d}.pb'] = meta.SerializeToString()
      for j in range(2):
        es = gen_entries(rng, w.names(), 1, f'n{j}_')
        m = self.fresh(fs, '/data/n')
        m.add_bags(to_add(self.m, es))
        w.e += es
        self.expect('large-number', 'an opened manager does not show the latest committed state',
                    self.try_observe(lambda: self.fresh(fs, '/data/n')), w.view(), update_number=n + j + 1)
    # the file system given is the one used, also by later updates
    fs = fakekd.MemFS()
    fs2 = fs.alias()
    m = self.M.create_new('/data/v', fs=fs2)
    m.add_bags(to_add(self.m, gen_entries(rng, [], 2, 'v', odd=False)))
    self.M.create_from_dir('/data/v', fs=fs2).add_bags(to_add(self.m, gen_entries(rng, [], 2, 'w', odd=False)))
    self.expect('fs-given', 'files were accessed past the file system given', fs.log, [])
    # uncommitted leftovers (a writer died) are ignored when opening
    fs, m, w = self.start([2])
    for nm in ('metadata-000000000002-xyz.pb', 'metadata-000000000009.pb.tmp', 'metadata-9.pb', 'bag-zz.kd'):
      with fs.open('/data/x/' + nm, 'wb') as f:
        f.write(b'\xff\xffgarbage')
    self.expect('leftovers', 'uncommitted leftovers of a dead writer disturb opening',
                self.try_observe(lambda: self.fresh(fs)), w.view())
    # the real file system
    root = os.path.join(common.scratch(), 'dbm')
    for d in ('plain', 'we[i]rd', 'st*r', 'q?'):
      if c.enough():
        return
      p = os.path.join(root, d)
      es = gen_entries(rng, [], 3, 'o')
      es = [(n.replace('/', '_').replace('*', '_'),) + tuple(r) for n, *r in es]
      es = [(n, dd, (), cm) for n, dd, _, cm in es]
      c.ev(sample=f'real directory {d}')
      try:
        m = self.M.create_new(p)
        m.add_bags(to_add(self.m, es))
        self.clear()
        for kind in ('create_branch', 'extract_bags'):
          # the default file system is used for the output
          getattr(m, kind)([es[0][0]], output_dir=p + '-' + kind)
          self.expect('real-out:' + kind, f'{kind} to the default file system loses data',
                      self.try_observe(lambda: self.M.create_from_dir(p + '-' + kind)),
                      World(es[:1]).view())
        self.expect('real:' + d, 'on the real file system a reopened manager does not show what was added',
                    self.try_observe(lambda: self.M.create_from_dir(p)), World(es).view())
      except ValueError as e:
        c.fail('real-error:' + d, 'a manager cannot be created in a real directory of this name', dir=d, error=e)
    shutil.rmtree(root, True)


def run(c):
  h = H(c)
  {'P16': h.atomic, 'P17': h.writers, 'P18': h.closures, 'P19': h.cached,
   'P20': h.branches, 'P21': h.opening}[c.prop]()
