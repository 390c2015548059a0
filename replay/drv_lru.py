"""Executable contracts of the LRU cache on the real class (P01, P02, P03)."""

import itertools
import sys
import threading
import time


def mk(n):
  from koladata.ext.storage import lru_size_tracking_cache as m
  return m.CacheEntryMetadata(num_bytes_estimate=n)


def cls():
  from koladata.ext.storage import lru_size_tracking_cache as m
  return m.LruSizeTrackingCache


class Model:
  """Sequential specification: entries old -> new, total, limit."""

  def __init__(self, mx):
    self.e = []  # [(key, value, size)]
    self.mx = mx

  def copy(self):
    m = Model(self.mx)
    m.e = list(self.e)
    return m

  def total(self):
    return sum(s for _, _, s in self.e)

  def shrink(self, to):
    while self.e and self.total() > to:
      self.e.pop(0)

  def idx(self, k):
    for i, x in enumerate(self.e):
      if x[0] == k:
        return i
    return None

  def apply(self, op):
    n = op[0]
    if n == 'get':
      i = self.idx(op[1])
      if i is None:
        return op[2]
      x = self.e.pop(i)
      self.e.append(x)
      return x[1]
    if n == 'set':
      i = self.idx(op[1])
      if i is not None:
        x = self.e.pop(i)
        self.e.append(x)
        return x[1]
      if op[3] > self.mx:
        return op[2]
      self.shrink(self.mx - op[3])
      self.e.append((op[1], op[2], op[3]))
      return op[2]
    if n == 'remove':
      i = self.idx(op[1])
      if i is not None:
        self.e.pop(i)
      return None
    if n == 'max':
      if op[1] < 0:
        return ValueError
      self.shrink(op[1])
      self.mx = op[1]
      return None
    if n == 'clear':
      self.e = []
      return None
    if n == 'total':
      return self.total()
    if n == 'getmax':
      return self.mx
    raise AssertionError(op)


def real(c, op):
  n = op[0]
  try:
    if n == 'get':
      return c.get(op[1], op[2])
    if n == 'set':
      return c.set(op[1], op[2], mk(op[3]))
    if n == 'remove':
      return c.remove(op[1])
    if n == 'max':
      return c.set_max_total_bytes_of_entries_in_cache(op[1])
    if n == 'clear':
      return c.clear()
    if n == 'total':
      return c.get_total_bytes_of_entries_in_cache()
    if n == 'getmax':
      return c.get_max_total_bytes_of_entries_in_cache()
  except ValueError:
    return ValueError


def drain(c, keys):
  """Observes the abstract state through the public API (destroys it).

  Sizes are observed as drops of the total while the limit is lowered one entry
  at a time, which also yields the eviction (recency) order.
  """
  seq = [('getmax', c.get_max_total_bytes_of_entries_in_cache())]
  t = c.get_total_bytes_of_entries_in_cache()
  seq.append(('total', t))
  for _ in range(40):
    if t <= 0:
      break
    c.set_max_total_bytes_of_entries_in_cache(t - 1)
    t2 = c.get_total_bytes_of_entries_in_cache()
    seq.append(t - t2)
    if t2 >= t:
      seq.append('stuck')
      break
    t = t2
  return seq


def model_drain(m):
  m = m.copy()
  seq = [('getmax', m.mx), ('total', m.total())]
  while m.total() > 0:
    t = m.total()
    m.shrink(t - 1)
    seq.append(t - m.total())
  return seq


def contents(c, keys, miss):
  return {k: c.get(k, miss) for k in keys}


def run_history(c, ops, mx, prop):
  real_c = cls()(max_total_bytes_of_entries_in_cache=mx)
  m = Model(mx)
  for i, op in enumerate(ops):
    r = real(real_c, op)
    e = m.apply(op)
    if prop == 'P02' and not (r is e or (type(r) is type(e) and r == e)):
      return f'operation #{i} {op} returned {r!r}, specification says {e!r}'
    if prop == 'P01':
      t = real_c.get_total_bytes_of_entries_in_cache()
      if t != m.total():
        return f'after operation #{i} {op}: reported total {t}, sum of sizes {m.total()}'
      lim = real_c.get_max_total_bytes_of_entries_in_cache()
      if t > lim or t < 0:
        return f'after operation #{i} {op}: total {t} outside [0, {lim}]'
      if op[0] == 'max' and op[1] < 0 and r is not ValueError:
        return f'operation #{i} {op}: negative limit accepted'
  if prop == 'P01':
    miss = object()
    got = contents(real_c, sorted({o[1] for o in ops if o[0] in ('set', 'get')}), miss)
    s = sum(x[2] for x in m.e)
    present = sum(1 for v in got.values() if v is not miss)
    if present != len(m.e):
      return f'{present} entries present, accounting is for {len(m.e)} ({s} bytes)'
  if prop == 'P02':
    a, b = drain(real_c, None), model_drain(m)
    if a != b:
      return f'observed limit/total/eviction order {a}, specification {b}'
  return None


class Odd:
  """A value without a usable equality or truth value."""
  __hash__ = None

  def __init__(self, answer):
    self.answer = answer

  def _answer(self, *_):
    if self.answer is None:
      raise RuntimeError('ambiguous')
    return self.answer

  __eq__ = __ne__ = __bool__ = __len__ = _answer


def odd_values(c):
  """Values are kept and returned as they are, whatever they are."""
  for answer in (True, False, None):
    for size in (0, 1, 5):
      x, y, d = Odd(answer), Odd(answer), Odd(answer)
      q = cls()(max_total_bytes_of_entries_in_cache=5)
      c.ev()
      try:
        got = [q.get('k', d), q.set('k', x, mk(size)), q.set('k', y, mk(size)), q.get('k', d), q.get('k'), q.get('z', d), q.get('z')]
        q.remove('k')
        got += [q.get('k', d), q.set('k', y, mk(size)), q.get('k')]
        q.clear()
        got += [q.get('k', d), q.set('k', x, mk(6)), q.get('k', d)]
      except Exception as e:
        c.fail('odd', f'a value without a usable equality: {type(e).__name__}: {e}', size=size)
        continue
      want = [d, x, x, x, x, d, None, d, y, y, d, x, d]
      bad = [i for i, (a, b) in enumerate(zip(got, want)) if a is not b]
      if bad:
        c.fail('odd', 'another value is returned than the one given first', size=size, answer=answer, at=bad)


def seq_props(c):
  prop = c.prop
  if prop == 'P02':
    odd_values(c)
  if prop == 'P01':
    try:
      cls()(max_total_bytes_of_entries_in_cache=-1)
      c.fail('neg-init', 'negative limit accepted by the constructor')
    except ValueError:
      pass
  D = 'default'
  alphabet = ([('get', k, D) for k in 'ab'] +
              [('set', k, v, s) for k in 'ab' for v, s in ((None, 1), ('v' + k, 2), (0, 4), ('big', 9))] +
              [('set', 'c', 'vc', 3), ('set', 'z', 'z0', 0)] +
              [('remove', 'a'), ('remove', 'b')] +
              [('max', x) for x in (0, 2, 3, 5, -1)] +
              [('clear',)])
  depth = 3
  for n in range(1, depth + 1):
    for ops in itertools.product(alphabet, repeat=n):
      for mx in (0, 4, 6) if n < 3 else (6,):
        w = run_history(c, ops, mx, prop)
        c.ev((mx, ops))
        if w:
          c.fail('history', w, limit=mx, ops=[repr(o) for o in ops])
          return
      if c.enough():
        return
  keys = [f'k{i}' for i in range(7)]
  end = c.left() - (12 if not c.thorough else 60)
  t_end = time.time() + min(max(c.left() - 8, 5), 60 if not c.thorough else 600)
  n = 0
  while time.time() < t_end and not c.enough() and (n < 40000 or c.thorough):
    n += 1
    mx = c.rng.choice([0, 1, 5, 16, 40, 127, 300])
    ops = []
    for j in range(c.rng.randint(4, 40)):
      o = c.rng.random()
      k = c.rng.choice(keys)
      if o < .45:
        ops.append(('set', k, c.rng.choice([None, 0, False, f'v{j}', ValueError]),
                    c.rng.choice([0, 1, 2, 4, 8, 16, 32, 64])))
      elif o < .7:
        ops.append(('get', k, c.rng.choice([D, None])))
      elif o < .8:
        ops.append(('remove', k))
      elif o < .92:
        ops.append(('max', c.rng.choice([0, 1, 3, 7, 20, 60, 128, 300, -3])))
      elif o < .94:
        ops.append(('clear',))
      else:
        ops.append((c.rng.choice(['total', 'getmax']),))
    w = run_history(c, ops, mx, prop)
    c.ev()
    if w:
      c.fail('history', w, limit=mx, ops=[repr(o) for o in ops])
      return


# -- P03: deterministic interleavings --


def observe(c, keys):
  miss = 'MISS'
  d = drain_full(c, keys, miss)
  return d


def drain_full(c, keys, miss):
  """Total, limit, contents in recency order, through the public API."""
  mx = c.get_max_total_bytes_of_entries_in_cache()
  tot = c.get_total_bytes_of_entries_in_cache()
  inner = c.__dict__
  # Values: read through get in a fixed order after draining order is recorded
  # on an identical replay would cost twice; order is taken from drops instead.
  vals = tuple((k, c.get(k, miss)) for k in keys)
  return (mx, tot, vals, c.get_total_bytes_of_entries_in_cache())


def safe(c, op):
  try:
    r = real(c, op)
    return ('ret', 'ValueError' if r is ValueError else r)
  except BaseException as e:  # pylint: disable=broad-except
    return ('exc', type(e).__name__)


def build(prefix, mx):
  c = cls()(max_total_bytes_of_entries_in_cache=mx)
  for op in prefix:
    real(c, op)
  return c


def final(c, keys):
  a = drain_full(c, keys, 'MISS')
  return a


def final_order(c):
  return tuple(map(str, drain(c, None)))


def sequential(prefix, mx, x, y, keys, order):
  c = build(prefix, mx)
  rx = safe(c, x)
  ry = safe(c, y)
  return (rx, ry, final_order(c) if order else final(c, keys))


def interleave(prefix, mx, a, b, stop, order, keys, fname, wait):
  """Runs `a` in a thread, pausing it before its `stop`-th traced line while
  `b` runs.  Returns (result a, result b, final state) or None if `a` has fewer
  lines."""
  c = build(prefix, mx)
  state = {'n': 0, 'hit': False}
  paused, go = threading.Event(), threading.Event()
  res = {}

  def tracer(frame, event, arg):
    if frame.f_code.co_filename != fname:
      return None
    if event in ('line', 'return'):
      state['n'] += 1
      if state['n'] == stop and not state['hit']:
        state['hit'] = True
        paused.set()
        go.wait(10)
    return tracer

  def run_a():
    sys.settrace(tracer)
    try:
      res['a'] = safe(c, a)
    finally:
      sys.settrace(None)
      paused.set()

  def run_b():
    res['b'] = safe(c, b)

  ta = threading.Thread(target=run_a, daemon=True)
  tb = threading.Thread(target=run_b, daemon=True)
  ta.start()
  paused.wait(10)
  if not state['hit']:
    ta.join(10)
    return None
  tb.start()
  tb.join(wait)
  go.set()
  ta.join(10)
  tb.join(10)
  if ta.is_alive() or tb.is_alive():
    return ('deadlock',)
  return (res['a'], res['b'], final_order(c) if order else final(c, keys))


def conc(c):
  from koladata.ext.storage import lru_size_tracking_cache as m
  fname = m.__file__
  keys = ['a', 'b', 'c', 'd', 'n']
  prefix = [('set', 'a', 'A', 1), ('set', 'b', 'B', 2), ('set', 'c', 'C', 4)]
  mx = 9
  ops = [
      ('get', 'a', 'dflt'), ('set', 'n', 'N1', 8), ('set', 'n', 'N2', 8),
      ('set', 'a', 'A2', 1), ('remove', 'a'), ('max', 4), ('max', 1),
      ('clear',), ('total',), ('set', 'd', 'D', 2), ('getmax',),
  ]
  # A lone thread first: an operation may not deadlock with itself.
  for op in ops:
    done = []
    t = threading.Thread(target=lambda op=op: done.append(safe(build(prefix, mx), op)),
                         daemon=True)
    t.start()
    t.join(10)
    c.ev()
    if t.is_alive():
      c.fail('self-deadlock', f'{op} never returns', op=repr(op))
      return
  pairs = [(a, b) for a in ops for b in ops]
  c.rng.shuffle(pairs)
  for wait in (0.004, 0.03):
    for order in (False, True):
      for a, b in pairs:
        r = sequential(prefix, mx, b, a, keys, order)
        allowed = {sequential(prefix, mx, a, b, keys, order), (r[1], r[0], r[2])}
        for stop in range(1, 200):
          if c.enough():
            return
          r = interleave(prefix, mx, a, b, stop, order, keys, fname, wait)
          if r is None:
            break
          c.ev((a, b, stop))
          if r not in allowed:
            # Confirm: the same schedule must fail again.
            r2 = interleave(prefix, mx, a, b, stop, order, keys, fname, wait)
            if r2 is not None and r2 not in allowed:
              c.fail('interleaving',
                     f'thread 1 {a} paused before its traced line #{stop} while '
                     f'thread 2 runs {b}: outcome {r} is not that of either sequential order',
                     prefix=[repr(o) for o in prefix], limit=mx,
                     allowed=[repr(x) for x in allowed])
              return
    if not c.hints and not c.thorough:
      return


def run(c):
  if c.prop == 'P03':
    conc(c)
  else:
    seq_props(c)
