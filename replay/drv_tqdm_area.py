"""Executable contracts of koladata.ext.tqdm on the real code (P06-P10)."""

import asyncio
import contextvars
import io
import itertools
import logging
import math
import threading

import common


class Boom(Exception):
  pass


def mods():
  common.gen_protos('py/koladata/ext/tqdm/proto/progress.proto')
  import koladata.ext.tqdm as pkg
  import os
  gen = os.path.join(common.scratch(), 'gen', 'py', 'koladata', 'ext', 'tqdm')
  if gen not in list(pkg.__path__):
    pkg.__path__.append(gen)
  from koladata.ext.tqdm import context, types
  from koladata.ext.tqdm import tqdm as bar
  logging.disable(logging.CRITICAL)
  return context, bar, types


class _Widget:
  """Stand-in for the widgets of a notebook (ipywidgets is not installed)."""

  def __init__(self, children=(), **kw):
    self.children = list(children)
    self.value = None
    self.bar_style = ''
    self.visible = True
    self.layout = type('Layout', (), {})()
    self.style = type('Style', (), {})()

  def close(self):
    self.visible = False


def notebook(shown):
  """The real module on top of the real tqdm.notebook bars; shown: what is displayed."""
  import importlib.util
  import tqdm.asyncio
  import tqdm.auto
  import tqdm.notebook as nb
  nb.IProgress = nb.HTML = nb.HBox = nb.TqdmHBox = _Widget
  nb.display = shown.append
  _, bar, _ = mods()

  class nb_tqdm(nb.tqdm_notebook, tqdm.asyncio.tqdm_asyncio):   # (as tqdm.auto does in a notebook)
    pass
  base = tqdm.auto.tqdm
  try:
    tqdm.auto.tqdm = nb_tqdm
    spec = importlib.util.spec_from_file_location('koladata.ext.tqdm.tqdm_in_notebook', bar.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
  finally:
    tqdm.auto.tqdm = base
  return m


def p06(c):
  ctx, bar, types = mods()
  get = ctx.get_reporter

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  def tree(depth):
    before = get()
    r = c.rng.choice([None, object(), [], 0, ''])
    act = c.rng.choice(['ok', 'raise', 'base', 'set'])
    err = None
    try:
      with ctx.using_reporter(r) as got:
        check(got is r, 'yield', 'the block does not receive the reporter')
        check(get() is r, 'inside', f'active reporter inside the block is {get()!r}, not {r!r}')
        for _ in range(c.rng.randint(0, 2)):
          if depth:
            try:
              tree(depth - 1)
            except (Boom, KeyboardInterrupt):
              pass
            check(get() is r, 'inner', 'reporter changed by an inner block')
        if act == 'set':
          tok = ctx.set_reporter(object())
          if c.rng.random() < .5:
            ctx.reset_reporter(tok)
            check(get() is r, 'reset', 'reset does not restore')
        if act == 'raise':
          raise Boom()
        if act == 'base':
          raise KeyboardInterrupt()
    except (Boom, KeyboardInterrupt) as x:
      err = x
    check(get() is before, 'restore', 'the previous reporter is not restored', act=act)
    check((err is not None) == (act in ('raise', 'base')), 'swallow', 'exception swallowed')
    if err:
      raise err

  check(get() is None, 'default', 'a reporter is active by default')
  for i in range(3000):
    if c.enough():
      return
    try:
      contextvars.copy_context().run(tree, 3)
    except (Boom, KeyboardInterrupt):
      pass
    check(get() is None, 'leak', 'reporter leaks')
  for kind in (Boom, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, StopAsyncIteration,
               asyncio.CancelledError, RuntimeError, MemoryError):
    for before in (None, object()):
      marker = kind('x')

      def block():
        with ctx.using_reporter(before):
          try:
            with ctx.using_reporter(object()):
              raise marker
          except BaseException as x:  # pylint: disable=broad-except
            check(x is marker, 'identity', f'another exception propagates: {x!r} for {marker!r}')
          else:
            check(False, 'swallow', f'exception swallowed: {marker!r}')
          check(get() is before, 'restore', 'the previous reporter is not restored', act=repr(marker))
      contextvars.copy_context().run(block)

  async def task(r, log):
    before = get()
    for _ in range(3):
      with ctx.using_reporter(r):
        await asyncio.sleep(0)
        log.append(get() is r)
        await asyncio.sleep(0)
        log.append(get() is r)
      log.append(get() is before)
      await asyncio.sleep(0)

  async def main(log):
    await asyncio.gather(task(object(), log), task(object(), log), task(None, log))
  log = []
  asyncio.run(main(log))
  check(all(log), 'task', 'reporter leaks between tasks')
  res = []
  with ctx.using_reporter(object()):
    t = threading.Thread(target=lambda: res.append(get()))
    t.start()
    t.join()
  check(res == [None], 'thread', 'reporter leaks into a new thread')


def mkreporter(types, **cfg):
  class R(types.ProgressReporter):

    def __init__(self):
      super().__init__()
      self.states = []
      self.fail = None

    def _get_config(self):
      return types.TqdmConfig(**cfg)

    def _set_progress_impl(self, state):
      self.states.append(state)
      if self.fail:
        raise self.fail
  return R()


def p07(c):
  shown = []
  bars = [mods()[1], mods()[1], notebook(shown)]
  for bar in bars:
    p07_bars(c, bar, 700, bar is bars[2])


def p07_bars(c, bar, rounds, nb):
  ctx, _, types = mods()

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  for i in range(rounds):
    if c.enough():
      return
    kw = {}
    if c.rng.random() < .3:
      kw['disable'] = c.rng.random() < .6
    if c.rng.random() < .5:
      kw['leave'] = c.rng.choice([True, False, None])
    if c.rng.random() < .3:
      kw['delay'] = c.rng.choice([0, 1000])
    if c.rng.random() < .5:
      kw['desc'] = c.rng.choice(['d', '', None, ' d e ', 'x: '])
    if c.rng.random() < .3:
      kw['initial'] = c.rng.choice([0, 3, 2.5])
    if not nb and c.rng.random() < .3:
      kw['position'] = c.rng.choice([0, 1, 3])
    kw['total'] = c.rng.choice([None, 0, 5, 100])
    kw['unit'] = c.rng.choice(['it', 'x', '', ' item'])
    kw['mininterval'] = 0
    kw['file'] = io.StringIO()
    rep = mkreporter(types) if c.rng.random() < .85 else None
    if rep is not None:
      rep.fail = c.rng.choice([None, None, Boom('x'), AttributeError('y'), StopIteration(), OSError()])
    hist = []
    try:
      with ctx.using_reporter(rep):
        b = bar.tqdm(**kw)
      later = mkreporter(types)
      ids = set()
      seen = len(rep.states) if rep is not None else 0
      for s in rep.states if rep is not None else ():
        check(not s.is_closed and s.is_displayed, 'initial', 'initial report wrong', kw=str(kw))
      for j in range(c.rng.randint(1, 8)):
        o = c.rng.choice(['update', 'refresh', 'display', 'postfix', 'close', 'close', 'desc', 'fmt', 'reset'])
        hist.append(o)
        disable, leave = b.disable, b.leave
        with ctx.using_reporter(later):
          if o == 'update':
            b.update(c.rng.choice([1, 0, 2]))
          elif o == 'refresh':
            b.refresh()
          elif o == 'display' and not kw.get('disable'):
            # (tqdm itself cannot display a bar created disabled)
            if nb or c.rng.random() < .5:
              b.display()
            else:
              out = b.fp.getvalue() if hasattr(b.fp, 'getvalue') else None
              r = b.display('a message', pos=0) if c.rng.random() < .5 else b.display(msg='a message')
              check(r is True, 'result', f'display returns {r!r}, the bar itself True', kw=str(kw), hist=hist)
              if out is not None and not b.disable:
                check('a message' in b.fp.getvalue()[len(out):], 'message', 'display does not show the message given',
                      kw=str(kw), hist=hist)
          elif o == 'postfix' and not b.disable:
            b.set_postfix_str('p%d' % j)
          elif o == 'close':
            b.close()
          elif o == 'desc' and not b.disable:
            b.set_description('e%d' % j)
          elif o == 'reset' and 'close' not in hist:
            b.reset(total=7)
        if rep is not None:
          new = rep.states[seen:]
          seen = len(rep.states)
          first_close = o == 'close' and hist.count('close') == 1
          for s in new:
            ids.add(s.bar_id)
            check(s.is_closed == (o == 'close'), 'closedflag', 'closed flag wrong', op=o, kw=str(kw), hist=hist)
            want = (not s.is_closed or bool(leave)) and not disable
            check(bool(s.is_displayed) == want, 'displayed', f'is_displayed={s.is_displayed}, expected {want}',
                  op=o, kw=str(kw), hist=hist)
            f = b.format_dict
            check(s.n == f['n'] and s.total == f['total'], 'counter', f'report has n={s.n} total={s.total}, the bar {f["n"]} {f["total"]}',
                  op=o, hist=hist)
            check(s.unit == f.get('unit', 'it') and s.desc == f.get('prefix') and s.postfix == f.get('postfix')
                  and s.initial == (f.get('initial', 0.0)), 'labels', 'report differs from the bar', op=o, hist=hist, state=repr(s))
          if first_close:
            check(len(new) == 1, 'final', f'{len(new)} reports on close, expected exactly one', kw=str(kw), hist=hist)
          elif 'close' in hist:
            check(not new, 'afterclose', 'report after the final one', kw=str(kw), hist=hist)
          elif o in ('display', 'refresh') :
            check(len(new) == (0 if disable else 1), 'display', f'{len(new)} reports for one {o} (disabled={disable})',
                  kw=str(kw), hist=hist)
        check(not later.states, 'capture', 'reports go to a reporter installed after construction', hist=hist)
      b.close()
      if rep is not None:
        check(len({s.bar_id for s in rep.states}) <= 1, 'id', 'the identifier of a bar changes', hist=hist)
        check(sum(s.is_closed for s in rep.states) == 1, 'once', 'not exactly one closing report',
              kw=str(kw), hist=hist)
        if rep.states:
          check(rep.states[-1].is_closed, 'last', 'the closing report is not the last', hist=hist)
          c_ids = getattr(c, 'bar_ids', None) or set()
          c.bar_ids = c_ids
          check(rep.states[0].bar_id not in c_ids, 'uniq', 'two bars share an identifier')
          c_ids.add(rep.states[0].bar_id)
    except Exception as x:  # pylint: disable=broad-except
      check(False, 'raised', f'bar operation raised {type(x).__name__}: {x}', kw=str(kw), hist=hist,
            reporter_failure=repr(getattr(rep, 'fail', None)))
  # A position given to display is the one used, whatever the own position is.
  if not nb:
    for rep in (None, mkreporter(types)):
      with ctx.using_reporter(rep):
        outer = bar.tqdm(total=3, file=io.StringIO(), mininterval=0)
        inner = bar.tqdm(total=3, file=io.StringIO(), mininterval=0)
      for pos, moves in ((0, 0), (2, 2), (None, 1)):
        done = len(inner.fp.getvalue())
        inner.display('there', pos=pos)
        out = inner.fp.getvalue()[done:]
        check(out.count('\n') == moves, 'position', f'display at position {pos} moved {out.count(chr(10))} lines, not {moves}')
      inner.close()
      outer.close()
  # Iteration with an always failing reporter still yields everything.
  rep = mkreporter(types)
  rep.fail = Boom('always')
  with ctx.using_reporter(rep):
    try:
      check(list(bar.tqdm(range(50), file=io.StringIO(), mininterval=0)) == list(range(50)), 'iter', 'items lost')
      check(list(bar.trange(2, 9, 3, file=io.StringIO())) == [2, 5, 8], 'trange', 'trange differs from range')
    except Exception as x:
      check(False, 'iter2', f'failing reporter broke the iteration: {x!r}')


def p08(c):
  import tqdm.auto
  import tqdm.notebook
  ctx, bar, types = mods()

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  base = tqdm.auto.tqdm
  calls = []
  orig_init = base.__init__
  orig_nb = tqdm.notebook.tqdm_notebook

  def rec(self, *a, **k):
    calls.append((a, k))
    self.disable = True
    self.leave = True
    self.iterable = None

  for nb in (False, True):
    try:
      base.__init__ = rec
      if nb:
        tqdm.notebook.tqdm_notebook = base
      for sf, sd in itertools.product([True, False], repeat=2):
        for mi, ma, mt in itertools.product([None, 0, 7.5], [None, 0.0, 9], [None, 0, 3]):
          cfg = dict(suppress_file=sf, suppress_display=sd, mininterval=mi, maxinterval=ma, miniters=mt)
          rep = mkreporter(types, **cfg)
          for mask in range(32):
            if c.rng.random() < .6 and mask not in (0, 31):
              continue
            user = {}
            for j, n in enumerate(('file', 'display', 'mininterval', 'maxinterval', 'miniters')):
              if mask >> j & 1:
                user[n] = c.rng.choice([None, 0, False, 'u' + n])
            user['desc'] = 'D'
            want = dict(user)
            if sf and 'file' not in user:
              want['file'] = '<devnull>'
            if sd and nb and 'display' not in user:
              want['display'] = False
            for n in ('mininterval', 'maxinterval', 'miniters'):
              if cfg[n] is not None and n not in user:
                want[n] = cfg[n]
            calls.clear()
            orig = dict(user)
            with ctx.using_reporter(rep):
              bar.tqdm('it', **user)
            a, k = calls[0]
            k = dict(k)
            if want.get('file') == '<devnull>' and 'file' in k:
              f = k['file']
              check(hasattr(f, 'write') and f is not None, 'devnull', 'suppressed output goes nowhere writable')
              k['file'] = '<devnull>'
            check(a == ('it',), 'args', f'positional arguments {a}')
            check(k == want and all(type(k[x]) is type(want[x]) for x in want), 'kwargs',
                  f'base bar got {k}, expected {want}', config=str(cfg), user=str(orig), notebook=str(nb))
            if c.enough():
              return
        calls.clear()
        with ctx.using_reporter(None):
          bar.tqdm('it', desc='x')
        check(calls[0] == (('it',), {'desc': 'x'}), 'noreporter', f'arguments changed without a reporter: {calls[0]}')
    finally:
      base.__init__ = orig_init
      tqdm.notebook.tqdm_notebook = orig_nb

  # Notebook bars: a widget is shown exactly if not suppressed, now or later.
  shown = []
  nbar = notebook(shown)
  for sd, display, delay, dis, total, rp in itertools.product(
      (True, False), ('unset', True, False), (None, 0, 1e-9, 1e-3), (False, True), (None, 7), (True, False)):
    if c.enough():
      return
    user = dict(total=total, mininterval=0, miniters=1, file=io.StringIO())
    if display != 'unset':
      user['display'] = display
    if delay is not None:
      user['delay'] = delay
    if dis:
      user['disable'] = True
    seen = []
    for mod in (nbar, None):
      shown.clear()
      if mod is None:   # the bar of tqdm itself, told what is expected
        u = dict(user)
        if rp and sd and display == 'unset':
          u['display'] = False
        bound = u.get('display') is False and (rp and sd and display == 'unset')
        b = tqdm.notebook.tqdm_notebook(**u)
      else:
        rep = mkreporter(types, suppress_display=sd) if rp else None
        with ctx.using_reporter(rep):
          b = mod.tqdm(**user)
        bound = False
      at_once = len(shown)
      if delay:
        import time
        time.sleep(delay * 2)
      for _ in range(3):
        b.update(1)
        b.refresh()
      b.close()
      seen.append((0, 0) if bound else (at_once, len(shown)))
    check(seen[0] == seen[1], 'widget', f'the widget is shown {seen[0][0]} time(s) at once and {seen[0][1]} in all, '
          f'expected {seen[1]}', suppress_display=str(sd), display=str(display), delay=str(delay), reporter=str(rp), disable=str(dis))


def p09(c):
  ctx, bar, types = mods()
  from koladata.ext.tqdm.proto import progress_pb2
  S = types.ProgressState

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  nums = [None, 0, 0.0, 1, 3.5, -2, 1e300, 5e-324, 2**52, 0.1, 1 / 3, float('inf'), 1e-9, 123456789.125]
  strs = [None, '', 'it', 'x y', 'ü\u20ac', 'a' * 300, ' ', ' pad  ', 'e:\n', 'It', '0', '\x00']
  same = lambda a, b: (a is None and b is None) or (a is not None and b is not None and a == b)
  for i in range(6000):
    if c.enough():
      return
    kw = dict(n=c.rng.choice(nums), total=c.rng.choice(nums), elapsed_secs=c.rng.choice(nums[1:]),
              rate=c.rng.choice(nums), initial=c.rng.choice(nums[1:]), unit=c.rng.choice(strs[1:]),
              desc=c.rng.choice(strs), postfix=c.rng.choice(strs), bar_id=c.rng.choice(strs[1:]),
              is_closed=c.rng.random() < .5, is_displayed=c.rng.random() < .5)
    s = S(**kw)
    try:
      p = s.to_proto()
      b = S.from_proto(progress_pb2.ProgressRecord.FromString(p.SerializeToString()))
    except Exception as x:
      check(False, 'raise', f'round trip raised {x!r}', state=repr(s))
      return
    want = dict(kw)
    want['n'] = kw['n'] or 0.0
    for n in ('total', 'rate', 'desc', 'postfix'):
      want[n] = kw[n] or None
    want['unit'] = kw['unit'] or 'it'
    for n in want:
      check(same(getattr(b, n), want[n]), 'rt-' + n, f'{n}: {kw[n]!r} came back as {getattr(b, n)!r}', state=repr(s))
      w = kw[n] if kw[n] is not None else (0.0 if n in ('n', 'total', 'rate') else '')
      check(getattr(p, n) == w, 'rec-' + n, f'record field {n} is {getattr(p, n)!r} for {kw[n]!r}')
    for n, v in kw.items():
      check(getattr(s, n) is v, 'state', 'state altered')
    n, t, r = kw['n'], kw['total'], kw['rate']
    f = s.fraction
    check((f is None) == (n is None or not t), 'fr-known', f'fraction {f} for n={n} total={t}')
    if f is not None:
      w = n / t
      check(f == w or (math.isnan(f) and math.isnan(w)), 'fr', f'fraction {f} for n={n} total={t}')
    q = s.remaining_s
    check((q is None) == (n is None or not t or not r), 'rem-known', f'remaining {q} for n={n} total={t} rate={r}')
    if q is not None:
      w = (t - n) / r
      check(q == w or (math.isnan(q) and math.isnan(w)), 'rem', f'remaining {q} for n={n} total={t} rate={r}')


def p10(c):
  ctx, bar, types = mods()

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  active = []
  overlap = []
  gate = threading.Event()

  class R(types.ProgressReporter):
    exc = None

    def enter(self):
      active.append(threading.get_ident())
      if len(set(active)) > 1:
        overlap.append(list(active))
      gate.wait(0.004)
      active.pop()

    def _get_config(self):
      self.enter()
      if self.mode == 'conf-fail':
        raise self.exc or Boom()
      return types.TqdmConfig()

    def _set_progress_impl(self, state):
      if self.mode == 'reenter':
        self.mode = ''
        self.tqdm_config
        self.set_progress(state)
      self.enter()
      if self.mode == 'fail':
        raise self.exc or Boom()

  S = types.ProgressState
  combos = [(m, [S()]) for m in ('', 'fail', 'conf-fail', 'reenter')]
  combos += [('', [S(is_closed=x, is_displayed=y, n=n, total=t), S(bar_id='b', is_closed=not x, n=1)])
             for x in (False, True) for y in (False, True) for n, t in ((None, None), (0, 5), (5, 5), (7, 5))]
  for mode, states in combos:
    r = R()
    r.mode = mode
    done = []

    def one():
      for k in range(3):
        try:
          if k % 2:
            r.tqdm_config
          else:
            r.set_progress(state=states[k // 2 % len(states)])
        except Boom:
          pass
      done.append(1)

    ts = [threading.Thread(target=one, daemon=True) for _ in range(6)]
    for t in ts:
      t.start()
    for t in ts:
      t.join(10)
    check(len(done) == 6, 'deadlock', f'a thread never finishes (mode {mode!r})')
    check(not overlap, 'overlap', f'hooks of one reporter ran concurrently (mode {mode!r})')
    if c.failures:
      return
  # Failures reach the caller and release the lock.
  for kind in (Boom, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, MemoryError):
    for call in ('set_progress', 'tqdm_config'):
      r = R()
      r.mode = 'fail' if call == 'set_progress' else 'conf-fail'
      r.exc = marker = kind('x')
      try:
        r.set_progress(types.ProgressState()) if call == 'set_progress' else r.tqdm_config
        check(False, 'swallowed', f'failure of the hook is swallowed by {call}', failure=repr(marker))
      except BaseException as x:  # pylint: disable=broad-except
        check(x is marker, 'identity', f'another exception leaves {call}', failure=repr(marker), got=repr(x))
      ok = []
      def second():
        r.mode = ''
        r.set_progress(types.ProgressState())
        ok.append(1)
      t = threading.Thread(target=second, daemon=True)
      t.start()
      t.join(5)
      check(ok == [1], 'stuck', 'the lock is not released after a failure', failure=repr(marker), call=call)
      if c.failures:
        return
  # Bars of several threads sharing one reporter.
  overlap.clear()
  r = R()
  r.mode = ''
  def work():
    with ctx.using_reporter(r):
      for _ in bar.tqdm(range(4), mininterval=0, file=io.StringIO()):
        pass
  ts = [threading.Thread(target=work, daemon=True) for _ in range(4)]
  [t.start() for t in ts]
  [t.join(10) for t in ts]
  check(not overlap, 'barsoverlap', 'bars of several threads ran the hooks concurrently')


def run(c):
  {'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10}[c.prop](c)
