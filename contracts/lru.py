"""Contracts for koladata.ext.storage.lru_size_tracking_cache (P01, P02, P03)."""

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm

MOD = 'koladata.ext.storage.lru_size_tracking_cache'
CLS = 'LruSizeTrackingCache'
FILE = 'py/koladata/ext/storage/lru_size_tracking_cache.py'

_FLD = {}


def fld(name):
  """Attribute `name` of an immutable (frozen) object, as a function."""
  if name not in _FLD:
    _FLD[name] = z3.Function('fld_' + name, Val, Val)
  return _FLD[name]


def weight(t):
  """Declared size of a cache entry."""
  return Val.i(fld('num_bytes_estimate')(fld('metadata')(t)))


class LruSpec(Spec):

  def __init__(self, active):
    super().__init__()
    self.active = active
    self.state = None
    self.models['threading.RLock'] = Builtin(
        'threading.RLock', lambda it, a, k: self.new_lock(it, True))
    self.models['threading.Lock'] = Builtin(
        'threading.Lock', lambda it, a, k: self.new_lock(it, False))
    self.protected = ()
    self.track = False

  # -- locks --
  def new_lock(self, it, reentrant):
    o = it.new_obj(ExtRef('threading.RLock' if reentrant else 'threading.Lock'))
    o.reentrant = reentrant
    o.depth = 0
    o.acquired = 0
    it.ghost.setdefault('locks', []).append(o)
    return o

  def acquire(self, it, o):
    if o.depth > 0 and not o.reentrant:
      self.ob(it, 'P03', 'non-reentrant lock is not re-acquired (self-deadlock)', False)
      raise PathEnd()
    if o.depth == 0:
      o.acquired += 1
    o.depth += 1

  def release(self, it, o):
    if o.depth <= 0:
      it.throw(RuntimeError, 'release of an unacquired lock')
    o.depth -= 1

  def with_model(self, it, cm, run):
    if isinstance(cm, Obj) and hasattr(cm, 'reentrant'):
      self.acquire(it, cm)
      try:
        run(cm)
      except (PyRaise, ReturnSig, BreakSig, ContinueSig):
        self.release(it, cm)
        raise
      self.release(it, cm)
      return None
    return UNDEF

  def obj_attr(self, it, o, name):
    if hasattr(o, 'reentrant'):
      if name in ('acquire', '__enter__'):
        return Builtin('lock.acquire', lambda it_, a, k: (self.acquire(it, o), True)[1])
      if name in ('release', '__exit__'):
        return Builtin('lock.release', lambda it_, a, k: self.release(it, o))
    return UNDEF

  # -- immutable entry objects read back from the dict --
  def frozen_hook(self, it, o):
    for n, v in o.fields.items():
      it.assume(fld(n)(it.tv(o)) == it.tv(v))

  def opaque_attr(self, it, v, name, default):
    if name in ('value', 'metadata', 'num_bytes_estimate'):
      return it.fv(fld(name)(v.t))
    return UNDEF

  # -- lock discipline --
  def on_read(self, it, o, name):
    self._access(it, o, name, 'read')

  def on_write(self, it, o, name, val):
    self._access(it, o, name, 'write')

  def on_dict(self, it, d, what):
    st = self.state
    if self.track and st and d is st.cache_obj:
      self._check(it, f'cache contents ({what})')

  def _access(self, it, o, name, how):
    st = self.state
    if not self.track or st is None or o is not st.obj:
      return
    if name in st.protected:
      self._check(it, f'{name} ({how})')
    if name == st.f_lock and how == 'write':
      self.ob(it, 'P03', 'the lock object is never replaced', False)

  def _check(self, it, what):
    lock = self.state.lock
    self.ob(it, 'P03', f'protected state accessed under the lock: {what}',
            lock.depth > 0)
    it.ghost['critical'] = it.ghost.get('critical', set()) | {lock.acquired}

  def ob(self, it, prop, name, f):
    if prop in self.active:
      it.oblige(f'{prop}: {name}', f)

  # -- loops --
  def loop_invariants(self, it, L):
    st = self.state
    if st is None:
      return []
    d = st.obj.fields.get(st.f_cache)
    if not isinstance(d, DictObj):
      return []
    track, self.track = self.track, False
    try:
      if d.items is not None:
        it.dict_promote(d)
      if 'd0' not in L.data:
        L.data['d0'] = d.snapshot()
        L.data['total0'] = st.obj.fields[st.f_total]
      d0 = L.data['d0']
      k, j, r = z3.Consts('k j r', Val)
      total = it.int_t(st.obj.fields[st.f_total])
      w, s = d.measures['bytes']
      out = [
          ('total = sum of sizes', total == s),
          ('entries kept unchanged', FA([k], z3.Implies(
              d.dom[k], z3.And(d0.dom[k], d.val[k] == d0.val[k],
                               d.ord[k] == d0.ord[k])), patterns=[d.dom[k]])),
          ('oldest removed first', FA([k, j], z3.Implies(
              z3.And(d0.dom[k], z3.Not(d.dom[k]), d.dom[j]),
              d0.ord[k] < d0.ord[j]), patterns=[z3.MultiPattern(d.dom[k], d.dom[j])])),
          ('stamps', z3.And(d.nxt == d0.nxt)),
      ]
      removed = lambda x: z3.And(d0.dom[x], z3.Not(d.dom[x]))
      names = []
      f = L.frame
      while f is not None:
        for n, v in sorted(f.locals.items()):
          if isinstance(v, (SInt,)) and not isinstance(v, bool):
            names.append((n, v.t))
        f = f.closure
      mx = st.obj.fields.get(st.f_max)
      if isinstance(mx, SInt):
        names.append(('self.max', mx.t))
      for n, t in names:
        out.append((f'evicts only while over {n}', FA([j], z3.Implies(
            z3.And(removed(j), FA([r], z3.Implies(
                removed(r), d0.ord[r] <= d0.ord[j]))),
            s + weight(d0.val[j]) > t), patterns=[d0.ord[j]])))
      if L.kind == 'for':
        ks = getattr(L.seqval, 'keys', None)
        idx = ks.idx if ks is not None else None
        if idx is not None:
          out.append(('exactly the first i entries are gone', FA([k], z3.Implies(
              d0.dom[k], d.dom[k] == (idx(k) >= L.i)), patterns=[idx(k)])))
          out.append(('exactly the first i entries are gone (2)', FA([k], z3.Implies(
              d0.dom[k], d.dom[k] == (idx(k) >= L.i)), patterns=[d0.dom[k]])))
          for n, t in names:
            out.append((f'evicted only while over {n} (index form)', z3.Implies(
                L.i > 0, s + weight(d0.val[ks.at(L.i - 1)]) > t)))
      return out
    finally:
      self.track = track

  def after_havoc(self, it):
    st = self.state
    if st is not None:
      d = st.obj.fields.get(st.f_cache)
      if isinstance(d, DictObj) and d.items is None:
        it.dict_facts(d)

  def variant(self, it, L):
    st = self.state
    if st is not None:
      d = st.obj.fields.get(st.f_cache)
      if isinstance(d, DictObj) and d.items is None:
        it.dict_facts(d)
        return d.card
    return None


def is_seq(x):
  return isinstance(x, z3.ExprRef) and x.sort() == SeqVal


class State:
  pass


def setup(it, sp, initial=False):
  """A cache in an arbitrary state satisfying the class invariant."""
  sp.state = None
  sp.track = False
  mod = it.prog.module(MOD)
  cls = it.modname(mod, CLS)
  m0 = z3.Int('max0')
  obj = None
  try:
    obj = it.call(cls, [], {'max_total_bytes_of_entries_in_cache': SInt(m0)})
  except PyRaise as e:
    sp.ob(it, 'P01', 'constructor rejects exactly negative limits',
          z3.And(it.exc_matches(e.exc, ValueError), m0 < 0))
    raise PathEnd()
  sp.ob(it, 'P01', 'constructor rejects exactly negative limits', m0 >= 0)
  st = State()
  st.obj = obj
  ints0 = [n for n, v in obj.fields.items() if v == 0 and isinstance(v, int) and not isinstance(v, bool)]
  maxes = [n for n, v in obj.fields.items() if isinstance(v, SInt) and v.t.eq(m0)]
  dicts = [n for n, v in obj.fields.items() if isinstance(v, DictObj)]
  locks = [n for n, v in obj.fields.items() if hasattr(v, 'reentrant')]
  pick = lambda c, pref: pref if pref in c else (c[0] if len(c) == 1 else None)
  st.f_total = pick(ints0, '_total_bytes_of_entries_in_cache')
  st.f_max = pick(maxes, '_max_total_bytes_of_entries_in_cache')
  st.f_cache = pick(dicts, '_cache')
  st.f_lock = pick(locks, '_rlock')
  if None in (st.f_total, st.f_max, st.f_cache):
    raise Unsupported(f'cannot identify the state of {CLS}: {sorted(obj.fields)}')
  if st.f_lock is None:
    if 'P03' in sp.active:
      sp.ob(it, 'P03', 'the cache owns exactly one lock', False)
    raise PathEnd()
  st.lock = obj.fields[st.f_lock]
  st.protected = tuple(n for n in obj.fields if n != st.f_lock)
  extra = [n for n in obj.fields if n not in (st.f_total, st.f_max, st.f_cache, st.f_lock)]
  if extra:
    raise Unsupported(f'unknown extra state {extra}')
  d = obj.fields[st.f_cache]
  sp.ob(it, 'P01', 'a new cache is empty', d.items == [])
  # Arbitrary reachable state.
  d.items = None
  d.measures = {'bytes': (weight, z3.Int('sum0'))}
  it.havoc_dict(d, 'cache')
  w, s = d.measures['bytes']
  total = z3.Int('total0')
  mx = z3.Int('limit0')
  obj.fields[st.f_total] = SInt(total)
  obj.fields[st.f_max] = SInt(mx)
  k = z3.Const('k', Val)
  it.assume(FA([k], z3.Implies(d.dom[k], weight(d.val[k]) >= 0), patterns=[d.dom[k]]))
  it.assume(FA([k], Val.is_int(fld('num_bytes_estimate')(k)),
                      patterns=[fld('num_bytes_estimate')(k)]))
  it.dict_facts(d)
  it.assume(z3.And(total == s, total <= mx, mx >= 0))
  st.d0 = d.snapshot()
  st.total0, st.max0 = total, mx
  st.cache_obj = d
  it.ghost['critical'] = set()
  sp.state = st
  st.lock.acquired = 0
  return st


def now(it, sp):
  """(dict, total, max) after the operation."""
  st = sp.state
  sp.track = False
  d = st.obj.fields[st.f_cache]
  if not isinstance(d, DictObj):
    raise Unsupported('cache field is not a dict any more')
  if d.items is not None:
    if 'bytes' not in d.measures:
      d.measures = {'bytes': (weight, z3.IntVal(0))}
    it.dict_promote(d)
  it.dict_facts(d)
  return d, it.int_t(st.obj.fields[st.f_total]), it.int_t(st.obj.fields[st.f_max])


def invariant(it, sp):
  d, total, mx = now(it, sp)
  w, s = d.measures['bytes']
  k = z3.Const('k', Val)
  sp.ob(it, 'P01', 'reported total equals the sum of the entry sizes', total == s)
  sp.ob(it, 'P01', 'total never exceeds the limit', total <= mx)
  sp.ob(it, 'P01', 'limit stays non-negative', mx >= 0)
  st = sp.state
  sp.ob(it, 'P03', 'lock is released on exit', st.lock.depth == 0)
  sp.ob(it, 'P03', 'operation is one critical section',
        len(it.ghost.get('critical', set())) <= 1)
  return d, total, mx


def same_order(d, d0, but=None):
  a, b = z3.Consts('a b', Val)
  c = [d.dom[a], d.dom[b]]
  if but is not None:
    c += [a != but, b != but]
  return FA([a, b], z3.Implies(z3.And(*c), (d.ord[a] < d.ord[b]) == (d0.ord[a] < d0.ord[b])))


def unchanged(d, d0):
  k = z3.Const('k', Val)
  return z3.And(
      FA([k], d.dom[k] == d0.dom[k]),
      FA([k], z3.Implies(d0.dom[k], d.val[k] == d0.val[k])),
      same_order(d, d0))


def newest(d, kt):
  j = z3.Const('j', Val)
  return FA([j], z3.Implies(z3.And(d.dom[j], j != kt), d.ord[j] < d.ord[kt]))


def lru_evicted(d, d0, limit, but=None):
  """d is d0 minus a minimal oldest prefix so that the sum fits `limit`."""
  k, j, r = z3.Consts('k j r', Val)
  w, s = d.measures['bytes']
  isb = (lambda x: x != but) if but is not None else (lambda x: z3.BoolVal(True))
  removed = lambda x: z3.And(d0.dom[x], z3.Not(d.dom[x]))
  return [
      ('survivors unchanged', FA([k], z3.Implies(
          z3.And(d.dom[k], isb(k)), z3.And(d0.dom[k], d.val[k] == d0.val[k])))),
      ('recency order of survivors unchanged', same_order(d, d0, but)),
      ('evicts least recently used first', FA([k, j], z3.Implies(
          z3.And(removed(k), d.dom[j], isb(j)), d0.ord[k] < d0.ord[j]))),
      ('evicts no more than needed', FA([j], z3.Implies(
          z3.And(removed(j), FA([r], z3.Implies(removed(r), d0.ord[r] <= d0.ord[j]))),
          s + weight(d0.val[j]) > limit))),
      ('fits the limit', s <= limit),
  ]


def method(it, st, name):
  return it.getattr(st.obj, name)


def run(it, sp, name, args, kwargs=None):
  st = sp.state
  m = method(it, st, name)
  sp.track = True
  try:
    r = it.call(m, args, kwargs or {})
    sp.track = False
    return r, None
  except PyRaise as e:
    sp.track = False
    return None, e.exc


def h_get(sp):
  def harness(it):
    st = setup(it, sp)
    key, dflt = z3.Consts('key default', Val)
    r, exc = run(it, sp, 'get', [SVal(key), SVal(dflt)])
    it.cover('get')
    d, total, mx = invariant(it, sp)
    ob = lambda n, f: sp.ob(it, 'P02', 'get: ' + n, f)
    ob('never raises', exc is None)
    rt = it.tv(r)
    d0 = st.d0
    k = z3.Const('k', Val)
    ob('limit unchanged', mx == st.max0)
    ob('no entry added or removed', FA([k], d.dom[k] == d0.dom[k]))
    ob('no value changed', FA([k], z3.Implies(d0.dom[k], d.val[k] == d0.val[k])))
    ob('hit returns the stored value, miss the default',
       rt == z3.If(d0.dom[key], fld('value')(d0.val[key]), dflt))
    ob('hit becomes most recent', z3.Implies(d0.dom[key], newest(d, key)))
    ob('order of the others unchanged', same_order(d, d0, key))
  return harness


def h_get_default(sp):
  def harness(it):
    st = setup(it, sp)
    key = z3.Const('key', Val)
    r, exc = run(it, sp, 'get', [SVal(key)])
    it.cover('get/1')
    sp.ob(it, 'P02', 'get: default is None', z3.Implies(z3.Not(st.d0.dom[key]), it.tv(r) == NONE))
    invariant(it, sp)
  return harness


def h_set(sp):
  def harness(it):
    st = setup(it, sp)
    key, val = z3.Consts('key value', Val)
    n = z3.Int('size')
    it.assume(n >= 0)
    md = it.call(it.modname(it.prog.module(MOD), 'CacheEntryMetadata'), [],
                 {'num_bytes_estimate': SInt(n)})
    # The caller cannot own the private "not found" marker.
    it.assume(z3.Implies(Val.is_ref(val), Val.id(val) < 2_000_000))
    kk = z3.Const('k', Val)
    it.assume(FA([kk], z3.Implies(Val.is_ref(fld('value')(st.d0.val[kk])),
                                         Val.id(fld('value')(st.d0.val[kk])) < 2_000_000),
                        patterns=[fld('value')(st.d0.val[kk])]))
    r, exc = run(it, sp, 'set', [SVal(key), SVal(val), md])
    it.cover('set')
    d, total, mx = invariant(it, sp)
    d0 = st.d0
    ob = lambda n_, f: sp.ob(it, 'P02', 'set: ' + n_, f)
    ob('never raises', exc is None)
    rt = it.tv(r)
    k = z3.Const('k', Val)
    hit = d0.dom[key]
    big = n > st.max0
    ob('limit unchanged', mx == st.max0)
    ob('existing key: existing value returned', z3.Implies(hit, rt == fld('value')(d0.val[key])))
    ob('existing key: nothing added, removed or overwritten', z3.Implies(hit, z3.And(
        FA([k], d.dom[k] == d0.dom[k]),
        FA([k], z3.Implies(d0.dom[k], d.val[k] == d0.val[k])))))
    ob('existing key: becomes most recent', z3.Implies(hit, newest(d, key)))
    ob('existing key: order of the others unchanged', z3.Implies(hit, same_order(d, d0, key)))
    ob('new key: given value returned', z3.Implies(z3.Not(hit), rt == val))
    ob('oversize: not stored, nothing evicted', z3.Implies(z3.And(z3.Not(hit), big), unchanged(d, d0)))
    fits = z3.And(z3.Not(hit), z3.Not(big))
    ob('fits: stored under the key', z3.Implies(fits, z3.And(
        d.dom[key], fld('value')(d.val[key]) == val, weight(d.val[key]) == n)))
    ob('fits: new entry is most recent', z3.Implies(fits, newest(d, key)))
    for nm, f in lru_evicted(d, d0, st.max0, but=key):
      ob('fits: ' + nm, z3.Implies(fits, f))
  return harness


def h_remove(sp):
  def harness(it):
    st = setup(it, sp)
    key = z3.Const('key', Val)
    r, exc = run(it, sp, 'remove', [SVal(key)])
    it.cover('remove')
    d, total, mx = invariant(it, sp)
    d0 = st.d0
    k = z3.Const('k', Val)
    ob = lambda n_, f: sp.ob(it, 'P02', 'remove: ' + n_, f)
    ob('never raises', exc is None)
    ob('limit unchanged', mx == st.max0)
    ob('removes exactly the key', FA([k], d.dom[k] == z3.And(d0.dom[k], k != key)))
    ob('other values unchanged', FA([k], z3.Implies(d.dom[k], d.val[k] == d0.val[k])))
    ob('order unchanged', same_order(d, d0))
  return harness


def h_setmax(sp):
  def harness(it):
    st = setup(it, sp)
    m = z3.Int('m')
    r, exc = run(it, sp, 'set_max_total_bytes_of_entries_in_cache', [SInt(m)])
    it.cover('set_max')
    d, total, mx = invariant(it, sp)
    d0 = st.d0
    ob = lambda n_, f: sp.ob(it, 'P02', 'set_max: ' + n_, f)
    if exc is not None:
      sp.ob(it, 'P01', 'set_max: raises only ValueError, only for negative limits',
            z3.And(it.exc_matches(exc, ValueError), m < 0))
      sp.ob(it, 'P01', 'set_max: a rejected limit changes nothing', z3.And(
          mx == st.max0, total == st.total0, unchanged(d, d0)))
      return
    sp.ob(it, 'P01', 'set_max: negative limit is rejected', m >= 0)
    sp.ob(it, 'P01', 'set_max: the new limit is in force', mx == m)
    for nm, f in lru_evicted(d, d0, m):
      ob(nm, f)
  return harness


def h_clear(sp):
  def harness(it):
    st = setup(it, sp)
    r, exc = run(it, sp, 'clear', [])
    it.cover('clear')
    d, total, mx = invariant(it, sp)
    k = z3.Const('k', Val)
    sp.ob(it, 'P02', 'clear: never raises', exc is None)
    sp.ob(it, 'P02', 'clear: no entry remains', FA([k], z3.Not(d.dom[k])))
    sp.ob(it, 'P01', 'clear: total is zero', total == 0)
    sp.ob(it, 'P02', 'clear: limit unchanged', mx == st.max0)
  return harness


def h_getters(sp):
  def harness(it):
    st = setup(it, sp)
    which = it.choose('getter')
    name = ('get_total_bytes_of_entries_in_cache' if which
            else 'get_max_total_bytes_of_entries_in_cache')
    r, exc = run(it, sp, name, [])
    it.cover('getters')
    d, total, mx = invariant(it, sp)
    w, s = st.d0.measures['bytes']
    sp.ob(it, 'P01', f'{name}: never raises', exc is None)
    if exc is None:
      sp.ob(it, 'P01', f'{name}: returns the true value', it.eq(r, SInt(s if which else st.max0)))
    sp.ob(it, 'P02', f'{name}: changes nothing', z3.And(
        unchanged(d, st.d0), mx == st.max0))
  return harness


PROOFS = {
    'get': h_get,
    'get_default': h_get_default,
    'set': h_set,
    'remove': h_remove,
    'set_max': h_setmax,
    'clear': h_clear,
    'getters': h_getters,
}


def proofs(prop):
  """Yields (name, spec factory, harness factory)."""
  for n, h in PROOFS.items():
    yield n, (lambda: LruSpec({prop})), h


TRUSTED = {p: ['threading.RLock: mutual exclusion, re-entrant, with-statement releases on every exit',
               'dict: insertion order, == based keys', 'z3 and the VC generator pyvc/']
           for p in ('P01', 'P02', 'P03')}
ASSUMPTIONS = {p: ['declared entry sizes are non-negative ints (mathematical integers, as in Python)',
                   'keys have a lawful __eq__ and __hash__ that do not touch the cache']
               for p in ('P01', 'P02', 'P03')}
ASSUMPTIONS['P03'] = ASSUMPTIONS['P03'] + [
    'reduction: one critical section of one lock per operation implies linearizability (textbook argument, not machine-checked)']
