"""Executable contracts of tracing_mode on the real module (P04, P05)."""

import asyncio
import contextvars
import pickle
import threading
import types


class Boom(Exception):
  pass


class Base(BaseException):
  pass


def p04(c):
  from koladata.expr import tracing_mode as tm
  on = tm.is_tracing_enabled

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  def tree(depth, trace):
    """Random nesting; returns normally or raises Boom/Base."""
    before = on()
    explicit = c.rng.random() < .8
    e = c.rng.random() < .5
    want = e if explicit else True
    act = c.rng.choice(['ok', 'ok', 'raise', 'base', 'return'])
    trace.append((want, act))
    err = None

    def block():
      with (tm.enable_tracing(e) if explicit else tm.enable_tracing()):
        check(on() == want, 'inside', 'mode inside the block differs', trace=trace, want=want)
        for _ in range(c.rng.randint(0, 2)):
          if depth:
            try:
              tree(depth - 1, trace)
            except (Boom, Base):
              if c.rng.random() < .3:
                raise
            check(on() == want, 'inner', 'mode changed by an inner block', trace=trace, want=want)
        if act == 'raise':
          raise Boom(id(trace))
        if act == 'base':
          raise Base()
        if act == 'return':
          return 'r'
      return 'ok'

    try:
      block()
    except (Boom, Base) as x:
      err = x
    check(on() == before, 'restore', 'mode is not restored after the block',
          trace=list(trace), before=before, after=on())
    check(err is not None or act in ('ok', 'return'), 'swallow',
          'exception of the block was swallowed', trace=list(trace))
    if err is not None:
      raise err

  check(not on(), 'default', 'tracing is on by default')
  for i in range(4000):
    if c.enough():
      return
    try:
      contextvars.copy_context().run(tree, 3, [])
    except (Boom, Base):
      pass
    check(not on(), 'leak', 'mode leaks out of a copied context')
  # Every kind of exception.
  for kind in (Boom, Base, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, StopAsyncIteration,
               asyncio.CancelledError, RuntimeError, MemoryError):
    for before in (False, True):
      for e in (False, True):
        marker = kind('x')

        def block():
          with tm.enable_tracing(before):
            try:
              with tm.enable_tracing(e):
                raise marker
            except BaseException as x:  # pylint: disable=broad-except
              check(x is marker, 'identity', f'another exception propagates: {x!r} for {marker!r}')
            else:
              check(False, 'swallow', f'exception of the block was swallowed: {marker!r}')
            check(on() == before, 'restore', 'mode is not restored after the block', raised=repr(marker),
                  before=before, after=on())
        contextvars.copy_context().run(block)
  # Threads.
  res = {}

  def other():
    res['t'] = on()
    with tm.enable_tracing(not res['t']):
      ev1.set()
      ev2.wait(5)
      res['t2'] = on()

  ev1, ev2 = threading.Event(), threading.Event()
  for m in (True, False):
    with tm.enable_tracing(m):
      ev1.clear(), ev2.clear()
      t = threading.Thread(target=other)
      t.start()
      ev1.wait(5)
      check(on() == m, 'thread', 'mode changed by another thread')
      ev2.set()
      t.join(5)
      check(res['t'] is False, 'thread2', 'a new thread does not start in eager mode')
      check(res['t2'] is True, 'thread3', 'mode of a thread changed by another thread')
  # Tasks: interleavings of three tasks.
  async def task(mode, steps, log):
    before = on()
    for _ in range(steps):
      with tm.enable_tracing(mode):
        await asyncio.sleep(0)
        log.append((on(), mode))
        await asyncio.sleep(0)
        log.append((on(), mode))
      log.append((on(), before))
      await asyncio.sleep(0)
      log.append((on(), before))

  async def main(log):
    await asyncio.gather(task(True, 3, log), task(False, 4, log), task(True, 2, log))

  for outer in (False, True):
    log = []
    with tm.enable_tracing(outer):
      asyncio.run(main(log))
    for got, want in log:
      check(got == want, 'task', 'mode leaks between interleaved tasks')
  # Interleaved contexts (manual enter/exit).
  c1, c2 = contextvars.copy_context(), contextvars.copy_context()
  a, b = tm.enable_tracing(True), tm.enable_tracing(False)
  c1.run(a.__enter__)
  c2.run(b.__enter__)
  check(c1.run(on) is True and c2.run(on) is False and on() is False, 'ctx', 'contexts interfere')
  c1.run(a.__exit__, None, None, None)
  check(c1.run(on) is False and c2.run(on) is False, 'ctx2', 'contexts interfere on exit')
  c2.run(b.__exit__, None, None, None)


class Eq:
  """Equal to everything, unhashable."""
  __hash__ = None

  def __eq__(self, o):
    return True


class EqRaises:
  def __eq__(self, o):
    raise RuntimeError('no comparison')
  __hash__ = None


class Falsy:
  def __bool__(self):
    return False


class NoBool:
  def __bool__(self):
    raise RuntimeError('no truth value')


def values(rng):
  return rng.choice([
      lambda: Eq(), lambda: EqRaises(), lambda: Falsy(), lambda: NoBool(), lambda: [],
      lambda: {}, lambda: 0, lambda: False, lambda: '', lambda: 1, lambda: True, lambda: 1.0,
      lambda: (), lambda: object(), lambda: (lambda: 1), lambda: types.ModuleType('sub'),
      lambda: [1], lambda: int, lambda: 12345678901, lambda: None,
  ])()


def p05(c):
  from koladata.expr import tracing_mode as tm

  def check(cond, key, what, **d):
    c.ev()
    if not cond:
      c.fail(key, what, **d)

  for it in range(2500):
    if c.enough():
      return
    cfg = {}
    n = c.rng.randint(0, 6)
    mod = types.ModuleType('m%d' % it, 'doc')
    names = [f'n{j}' for j in range(n)] + c.rng.choice([[], ['_private'], ['mro', 'name', 'obj'], ['__version__', '__x']])
    want = {}
    objs = []
    reg = []      # (eager, tracing) by identity
    dropped = None
    for nm in names:
      if objs and c.rng.random() < .25:
        eager = c.rng.choice(objs)
      else:
        eager = values(c.rng)
      objs.append(eager)
      prev = [t for e, t in reg if e is eager]
      kind = c.rng.choice(['dispatch', 'same', 'eager_only', 'unregistered' if c.rng.random() < .3 else 'same'])
      tr = {'dispatch': values(c.rng), 'same': eager, 'eager_only': None}.get(kind)
      if kind == 'unregistered':
        pass
      else:
        before = list(cfg.items())
        try:
          if kind == 'dispatch':
            r = tm.configure_tracing(cfg, eager=eager, tracing=tr)
          elif kind == 'same':
            r = tm.same_when_tracing(cfg, eager)
          else:
            r = tm.eager_only(cfg, eager)
          check(r is eager, 'returns', f'{kind} does not return the eager object', eager=repr(type(eager)))
          check(not prev or prev[0] is tr, 'conflict', 'conflicting registration accepted',
                eager=str(type(eager)), old=str(type(prev[0])) if prev else '', new=str(type(tr)))
          if not prev:
            reg.append((eager, tr))
        except ValueError:
          check(bool(prev) and prev[0] is not tr, 'conflict2',
                'registration without conflict rejected', eager=str(type(eager)), kind=kind)
          check(len(cfg) == len(before), 'conflict3', 'rejected registration changed the config')
        except Exception as x:
          check(False, 'register', f'registration of a {type(eager).__name__} raised {type(x).__name__}: {x}', kind=kind)
          return
      setattr(mod, nm, eager)
      want[nm] = eager
    mod.__all__ = list(names)
    mod.hidden = 42
    ident = lambda e: next(((True, t) for x, t in reg if x is e), (False, None))
    allreg = all(ident(want[nm])[0] for nm in names)
    try:
      d = tm.prepare_module_for_tracing(mod, cfg)
      check(allreg, 'unregistered', 'a public name without registration is accepted', names=names)
    except ValueError:
      check(not allreg, 'registered', 'a module with all names registered is rejected', names=names)
      continue
    except Exception as x:
      check(False, 'prepare', f'prepare raised {type(x).__name__}: {x}', names=names)
      return
    check(sorted(dir(d)) == sorted(names), 'dir', 'dir() is not the public names')
    cfg.clear()   # registrations are complete; later changes must not matter
    for _ in range(3):
      for nm in names:
        e, t = want[nm], ident(want[nm])[1]
        for mode in (False, True):
          with tm.enable_tracing(mode):
            try:
              r = getattr(d, nm)
              if mode:
                check(t is not None and r is t, 'tracing', 'tracing access does not yield the tracing version',
                      name=nm, want=str(type(t)), got=str(type(r)))
              else:
                check(r is e, 'eager', 'eager access does not yield the eager object', name=nm)
            except AttributeError:
              check(mode and t is None, 'missing', 'access failed', name=nm, mode=str(mode), tracing=str(type(t)))
            except Exception as x:
              check(False, 'access', f'access raised {type(x).__name__}: {x}', name=nm)
            try:
              setattr(d, nm, 1)
              check(False, 'assign', 'assignment to a public name is accepted', name=nm)
            except AttributeError:
              pass
    for nm in ('hidden', 'nope'):
      try:
        getattr(d, nm)
        check(False, 'hidden', f'{nm} is reachable')
      except AttributeError:
        c.ev()


def run(c):
  (p04 if c.prop == 'P04' else p05)(c)
