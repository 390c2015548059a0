"""Contracts for koladata.ext.tqdm (P06 scoping, P07 reports, P08 config, P09 state, P10 lock)."""

import os
import re

import z3

from pyvc.core import *
from pyvc.spec import Spec
from pyvc import builtins_model as bm
from contracts import tracing

CTX = 'koladata.ext.tqdm.context'
BAR = 'koladata.ext.tqdm.tqdm'
TYP = 'koladata.ext.tqdm.types'
PROTO = 'py/koladata/ext/tqdm/proto/progress.proto'

TRUSTED = {
    'P06': tracing.TRUSTED['P04'],
    'P07': ['tqdm library: __init__/display/close of the base bar may call display() of the '
            'subclass; close() sets disable before any such call; no method clears disable; '
            'format_dict has at least n and total', 'uuid.uuid4'],
    'P08': ['tqdm library: constructor arguments'],
    'P09': ['protobuf: a double/string/bool field stores and returns the value assigned; '
            'the generated class is the one protoc makes from the .proto of this tree'],
    'P10': ['threading.RLock'],
}
ASSUMPTIONS = {
    'P06': [],
    'P07': ['reporters fail with Exception subclasses (KeyboardInterrupt and the like propagate)'],
    'P08': [],
    'P09': ['numbers are finite and treated as mathematical reals (ints below 2**53); nan and '
            'infinities are covered by the cross-check only'],
    'P10': ['subclasses override the documented hooks only'],
}


class TqdmSpec(tracing.TracingSpec):

  def __init__(self):
    super().__init__()
    self.models['uuid.uuid4'] = Builtin('uuid.uuid4', self.uuid4)
    self.models['threading.RLock'] = Builtin('threading.RLock', lambda it, a, k: self.new_lock(it, True))
    self.models['threading.Lock'] = Builtin('threading.Lock', lambda it, a, k: self.new_lock(it, False))
    self.models['logging.getLogger'] = Builtin('logging.getLogger', lambda it, a, k: SVal(
        Val.ref(z3.IntVal(it.const_id('logger')))))
    self.models['typing.cast'] = Builtin('typing.cast', lambda it, a, k: a[1])
    self.models['koladata.ext.tqdm.proto.progress_pb2.ProgressRecord'] = Builtin(
        'protobuf ProgressRecord()', self.record)
    self.reporter = None
    self.reports = []
    self.base_calls = []
    self.bar = None
    self.is_nb = z3.Bool('is_notebook')

  # -- externals --
  def uuid4(self, it, a, k):
    o = it.new_obj(ExtRef('uuid.UUID'))
    o.fields['hex'] = SStr(it.fresh('uuid', z3.StringSort()))
    return o

  def new_lock(self, it, reentrant):
    o = it.new_obj(ExtRef('threading.RLock'))
    o.reentrant = reentrant
    o.depth = 0
    it.ghost.setdefault('locks', []).append(o)
    return o

  def with_model(self, it, cm, run):
    if isinstance(cm, Obj) and hasattr(cm, 'reentrant'):
      self.acquire(it, cm)
      try:
        run(cm)
      except (PyRaise, ReturnSig, BreakSig, ContinueSig):
        self.release(it, cm)
        raise
      self.release(it, cm)
      return None
    return UNDEF

  def acquire(self, it, o):
    if o.depth and not o.reentrant:
      it.oblige('P10: hooks may re-enter the reporter (lock is re-entrant)', False)
      raise PathEnd()
    o.depth += 1

  def try_acquire(self, it, o, a, k):
    blocking = k.get('blocking', a[0] if a else True)
    timeout = k.get('timeout', a[1] if len(a) > 1 else -1)
    waits = timeout == -1 and it.test(blocking)
    if not waits and not (o.depth and o.reentrant):
      if o.depth or it.choose('another thread holds the lock'):
        return False
    self.acquire(it, o)
    return True

  def release(self, it, o):
    if o.depth <= 0:
      it.throw(RuntimeError, 'release of an unacquired lock')
    o.depth -= 1

  def ext_class_attr(self, it, c, name):
    if c.name.endswith('tqdm.auto.tqdm') or c.name.endswith('auto.tqdm'):
      if name == '__init__':
        return Builtin('tqdm.__init__', self.base_init)
      if name == 'display':
        return Builtin('tqdm.display', self.base_display)
      if name == 'close':
        return Builtin('tqdm.close', self.base_close)
    return UNDEF

  def base_init(self, it, a, k):
    self.base_calls.append(('init', list(a[1:]), dict(k)))
    a[0].fields['disable'] = SBool(it.fresh('disable', z3.BoolSort()))
    a[0].fields['leave'] = SBool(it.fresh('leave', z3.BoolSort()))
    if it.choose('base displays during construction'):
      if not it.branch(a[0].fields['disable'].t):
        it.call(it.getattr(a[0], 'display'), [], {})
    return None

  def base_display(self, it, a, k):
    self.base_calls.append(('display', list(a[1:]), dict(k)))
    return SVal(z3.Const('display_result', Val))

  def base_close(self, it, a, k):
    self.base_calls.append(('close', list(a[1:]), dict(k)))
    bar = a[0]
    if it.branch(it.truth(bar.fields['disable'])):
      return None
    bar.fields['disable'] = True
    if it.choose('base close displays'):
      it.call(it.getattr(bar, 'display'), [], {})
    return None

  def isinstance_(self, it, v, c):
    if isinstance(v, Obj) and isinstance(c, ExtRef) and c.name.endswith('tqdm_notebook'):
      return self.is_nb
    return UNDEF

  def obj_attr(self, it, o, name):
    if isinstance(o.cls, ClassVal) and o.cls.module.name == BAR and name == 'format_dict':
      return self.format_dict(it)
    if o is self.reporter and o is not None:
      if name == 'tqdm_config':
        return self.config(it)
      if name == 'set_progress':
        return Builtin('reporter.set_progress', self.set_progress)
    if hasattr(o, 'reentrant'):
      if name in ('acquire', '__enter__'):
        return Builtin('lock.acquire', lambda it_, a, k: self.try_acquire(it, o, a, k))
      if name in ('release', '__exit__'):
        return Builtin('lock.release', lambda it_, a, k: self.release(it, o))
    if hasattr(o, 'proto'):
      return UNDEF
    return super().obj_attr(it, o, name)

  def opaque_attr(self, it, v, name, default):
    if z3.is_const(v.t) and v.t.decl().name() == 'state':
      sort = {'is_closed': SBool, 'is_displayed': SBool, 'unit': SStr, 'bar_id': SStr,
              'elapsed_secs': SReal, 'initial': SReal}.get(name)
      if sort is None:
        return SVal(z3.Const('state.' + name, Val))
      return sort(z3.Const('state.' + name, {SBool: z3.BoolSort(), SStr: z3.StringSort(), SReal: z3.RealSort()}[sort]))
    if name in ('warning', 'exception', 'error', 'info', 'debug', 'log'):
      return Builtin('logging.' + name, lambda it_, a, k: None)
    return UNDEF

  def set_progress(self, it, a, k):
    st = a[0] if a else k['state']
    self.reports.append((st, self.fmt))
    if it.choose('reporter fails'):
      raise PyRaise(it.new_obj(RuntimeError if it.choose('kind') else ValueError))
    return None

  def config(self, it):
    if not hasattr(self, 'cfg') or self.cfg_it is not it:
      m = it.prog.module(TYP)
      opt = lambda n: (None if not self.vary_config or it.choose(n + ' unset') else SReal(z3.Real('cfg_' + n)))
      self.cfg_it = it
      self.cfg = it.call(it.modname(m, 'TqdmConfig'), [], dict(
          suppress_file=SBool(z3.Bool('cfg_suppress_file')),
          suppress_display=SBool(z3.Bool('cfg_suppress_display')),
          mininterval=opt('mininterval'), maxinterval=opt('maxinterval'), miniters=opt('miniters')))
    return self.cfg

  vary_config = False
  FMT = ('n', 'total', 'elapsed', 'rate', 'initial', 'unit', 'prefix', 'postfix')

  def format_dict(self, it):
    d = it.new_dict_sym('fmt')
    for n in ('n', 'total'):
      it.assume(d.dom[it.tv(n)])
    d.merge_get = True
    self.fmt = d.snapshot()
    return d

  # -- protobuf --
  def fields(self, it):
    txt = open(os.path.join(it.eng.repo, PROTO)).read()
    body = txt[txt.index('message ProgressRecord'):]
    out = {}
    for t, n in re.findall(r'^\s*(?:optional\s+)?(\w+)\s+(\w+)\s*=\s*\d+\s*[;\[]', body, re.M):
      out[n] = t
    return out

  def record(self, it, a, k):
    o = it.new_obj(ExtRef('progress_pb2.ProgressRecord'))
    o.proto = True
    fs = self.fields(it)
    for n in k:
      if n not in fs:
        it.throw(ValueError, f'no field {n}')
    for n, t in fs.items():
      v = k.get(n)
      if isinstance(v, SVal):
        v = it.unopaque(v)
      if t == 'double':
        v = SReal(it.real_t(v)) if v is not None else 0.0
        if n in k and isinstance(k[n], (str, SStr)):
          it.throw(TypeError)
      elif t == 'float':
        v = SReal(_Round32(it.real_t(v))) if v is not None else 0.0
      elif t == 'string':
        if v is not None and not isinstance(v, (str, SStr)):
          it.throw(TypeError)
        v = '' if v is None else v
      elif t == 'bool':
        v = False if v is None else v
        if not isinstance(v, (bool, SBool)):
          v = SBool(it.int_t(v) != 0)
      elif t in ('int32', 'int64', 'uint32', 'uint64'):
        if isinstance(v, (float, SReal)):
          if not it.branch(z3.IsInt(it.real_t(v))):
            it.throw(TypeError)
          v = SInt(z3.ToInt(it.real_t(v)))
        v = 0 if v is None else v
      else:
        raise Unsupported(f'proto field type {t}')
      o.fields[n] = v
    return o


_Round32 = z3.Function('round_to_float32', z3.RealSort(), z3.RealSort())


# -- P06 -----------------------------------------------------------------------


def h_scope(sp):
  def harness(it):
    m = it.prog.module(CTX)
    f = lambda n: it.modname(m, n)
    get = lambda: it.tv(it.call(f('get_reporter'), [], {}))
    a, b = z3.Ints('ctx_a ctx_b')
    it.assume(a != b)
    sp.ctx = a
    before = get()
    sp.ctx = b
    before_b = get()
    sp.ctx = a
    rep = z3.Const('reporter', Val)
    mode = it.choose('block raises')
    deliver = it.new_obj(ValueError) if it.choose('exception kind') else it.new_obj(KeyboardInterrupt)
    seen = []
    cm = it.call(f('using_reporter'), [SVal(rep)], {})

    def body(v):
      seen.append(1)
      it.oblige('P06: the block receives the reporter', it.tv(v) == rep)
      it.oblige('P06: the reporter is active inside the block (None disables reporting)', get() == rep)
      sp.ctx = b
      it.oblige('P06: other contexts do not see the reporter', get() == before_b)
      sp.ctx = a
      if it.choose('block installs a reporter itself'):
        it.call(f('set_reporter'), [SVal(z3.Const('stray', Val))], {})
      if mode:
        raise PyRaise(deliver)

    exc = None
    try:
      it.with_cm(cm, body)
    except PyRaise as x:
      exc = x.exc
    it.cover('scope')
    it.oblige('P06: the block runs exactly once', len(seen) == 1)
    it.oblige('P06: the exception of the block, and only it, propagates',
              exc is (deliver if mode else None))
    it.oblige('P06: the previously active reporter is restored', get() == before)
    sp.ctx = b
    it.oblige('P06: other contexts keep their reporter', get() == before_b)
  return harness


def h_tokens(sp):
  def harness(it):
    m = it.prog.module(CTX)
    f = lambda n: it.modname(m, n)
    get = lambda: it.tv(it.call(f('get_reporter'), [], {}))
    before = get()
    r = z3.Const('reporter', Val)
    tok = it.call(f('set_reporter'), [SVal(r)], {})
    it.oblige('P06: set installs the reporter', get() == r)
    it.call(f('reset_reporter'), [tok], {})
    it.oblige('P06: reset restores the previous reporter', get() == before)
    it.cover('tokens')
  return harness


def h_default(sp):
  sp.symbolic_store = False

  def harness(it):
    m = it.prog.module(CTX)
    it.cover('default')
    it.oblige('P06: no reporter is active by default',
              it.tv(it.call(it.modname(m, 'get_reporter'), [], {})) == NONE)
  return harness


class CtxSpec(TqdmSpec):

  def new_var(self, it, a, k):
    o = super().new_var(it, a, k)
    if self.symbolic_store:   # any reporter value, not only booleans
      o.store = z3.Array('reporter_var', Ctx_, Val)
    return o


Ctx_ = z3.IntSort()

# -- P07/P08: bars -------------------------------------------------------------


def new_bar(it, sp, with_reporter, kwargs, args=()):
  m = it.prog.module(BAR)
  sp.reports, sp.base_calls = [], []
  if with_reporter:
    sp.reporter = it.new_obj(ExtRef('user reporter'))
  else:
    sp.reporter = None
  ctxm = it.prog.module(CTX)
  it.call(it.modname(ctxm, 'set_reporter'), [sp.reporter], {})
  cls = it.modname(m, 'tqdm')
  sp.fmt = None
  return it.call(cls, list(args), kwargs)


def own(bar):
  return {k: v for k, v in bar.fields.items() if k not in ('disable', 'leave')}


def same_own(it, a, b):
  if set(a) != set(b):
    return False
  fs = []
  for k in a:
    x, y = a[k], b[k]
    fs.append(True if x is y else it.eq(x, y))
  return it.conj(fs)


def check_report(it, sp, bar, rep, closed, pre, bar_id=None):
  st, fmt = rep
  g = lambda n: it.getattr(st, n)
  key = lambda n: it.tv(n)
  eq = lambda v, t: it.tv(v) == t
  it.oblige('P07: report: closed flag', it.eq(g('is_closed'), closed))
  disable, leave = pre
  want = z3.And(z3.Or(z3.Not(z3.BoolVal(closed)), it_b(it, leave)), z3.Not(it_b(it, disable)))
  it.oblige('P07: report: displayed exactly if not disabled and not closed-without-leave',
            it_b(it, g('is_displayed')) == want)
  it.oblige('P07: report: counter and total of the bar',
            z3.And(eq(g('n'), fmt.val[key('n')]), eq(g('total'), fmt.val[key('total')])))
  for a, k, dflt in (('rate', 'rate', None), ('desc', 'prefix', None), ('postfix', 'postfix', None),
                     ('elapsed_secs', 'elapsed', 0.0), ('initial', 'initial', 0.0), ('unit', 'unit', 'it')):
    it.oblige(f'P07: report: {a} of the bar', z3.If(
        fmt.dom[key(k)], eq(g(a), fmt.val[key(k)]), eq(g(a), it.tv(dflt))))
  if bar_id is not None:
    it.oblige('P07: report: one identifier per bar', it.eq(g('bar_id'), bar_id))
  return g('bar_id')


def it_b(it, v):
  t = it.truth(v)
  return z3.BoolVal(t) if isinstance(t, bool) else t


def havoc_base(it, bar):
  bar.fields['disable'] = SBool(it.fresh('disable', z3.BoolSort()))
  bar.fields['leave'] = SBool(it.fresh('leave', z3.BoolSort()))
  return bar.fields['disable'], bar.fields['leave']


def op(it, sp, bar, name, args=(), kwargs=None):
  sp.reports, sp.base_calls = [], []
  exc = r = None
  try:
    r = it.call(it.getattr(bar, name), list(args), kwargs or {})
  except PyRaise as x:
    exc = x.exc
  return r, exc


def display_args(it):
  """Arguments of display as tqdm passes them: message and position by place or name, notebook signals by name."""
  v = lambda n: SVal(z3.Const('display_' + n, Val))
  args, kw = [], {}
  if it.choose('arguments given'):
    if it.choose('message by place'):
      args.append(v('msg'))
    else:
      kw.update(msg=v('msg'), check_delay=v('check_delay'))
    kw['pos'] = v('pos')
  return args, kw


def bound_display(it, calls, args, kw):
  if len(calls) != 1:
    return False
  def bind(a, k):
    b = {'msg': None, 'pos': None, **k}
    b.update(zip(('msg', 'pos'), a))
    return b
  want, got = bind(args, kw), bind(calls[0][1], calls[0][2])
  return set(want) == set(got) and z3.And([it.tv(want[n]) == it.tv(got[n]) for n in want])


def h_bar(sp, display):
  """The own state of a bar is 'open' or 'closed'; every operation from each."""
  def harness(it):
    with_rep = it.choose('reporter active')
    try:
      bar = new_bar(it, sp, with_rep, {})
    except PyRaise:
      it.cover('init')
      it.oblige('P07: a failing reporter does not disturb construction', False)
      return
    it.cover('init')
    bid = None
    if with_rep:
      for r in sp.reports:
        bid = check_report(it, sp, bar, r, False, (bar.fields['disable'], bar.fields['leave']))
    else:
      it.oblige('P07: no reporter, no report', not sp.reports)
    rep = sp.reporter
    # The active reporter may change after construction.
    sp.reporter = rep
    ctxm = it.prog.module(CTX)
    other = it.new_obj(ExtRef('another reporter'))
    it.call(it.modname(ctxm, 'set_reporter'), [other], {})
    closed = it.choose('already closed')
    if closed:
      op(it, sp, bar, 'close')
      if bid is None and sp.reports:
        bid = it.getattr(sp.reports[0][0], 'bar_id')
    state0 = own(bar)
    pre = havoc_base(it, bar)
    if closed:
      it.assume(pre[0].t)   # tqdm contract: a closed bar stays disabled
    if display:
      it.cover('display closed' if closed else 'display open')
      args, kw = display_args(it)
      r, exc = op(it, sp, bar, 'display', args, kw)
      it.oblige('P07: a failing reporter never disturbs a display', exc is None)
      if exc is None:
        it.oblige('P07: display returns what the bar returns', it.tv(r) == z3.Const('display_result', Val))
        it.oblige('P07: the bar is told what to display', bound_display(it, [c for c in sp.base_calls if c[0] == 'display'],
                                                                         args, kw))
      it.lemma('P07: display keeps the state of the bar', same_own(it, own(bar), state0))
      it.oblige('P07: display still displays (base called once)',
                [c[0] for c in sp.base_calls] == ['display'])
      if with_rep and not closed:
        it.oblige('P07: display of an enabled bar sends one report, of a disabled one none',
                  z3.If(pre[0].t, z3.BoolVal(len(sp.reports) == 0), z3.BoolVal(len(sp.reports) == 1)))
        for r_ in sp.reports:
          check_report(it, sp, bar, r_, False, pre, bid)
      else:
        it.oblige('P07: no reporter or closed: no report', not sp.reports)
      return
    it.cover('close closed' if closed else 'close open')
    r, exc = op(it, sp, bar, 'close')
    it.oblige('P07: a failing reporter never disturbs close', exc is None)
    it.oblige('P07: close closes the base bar', ('close' in [c[0] for c in sp.base_calls]))
    if closed:
      it.oblige('P07: closing again sends nothing', not sp.reports)
      it.lemma('P07: closing again keeps the state', same_own(it, own(bar), state0))
    elif with_rep:
      it.oblige('P07: closing sends exactly one report', len(sp.reports) == 1)
      for r_ in sp.reports:
        check_report(it, sp, bar, r_, True, pre, bid)
    else:
      it.oblige('P07: no reporter, no report on close', not sp.reports)
  return harness


def h_kwargs(sp):
  def harness(it):
    with_rep = it.choose('reporter active')
    kwargs = {}
    for n in ('file', 'display', 'mininterval', 'maxinterval', 'miniters'):
      if it.choose('user gives ' + n):
        kwargs[n] = SVal(z3.Const('user_' + n, Val))
    kwargs['desc'] = SVal(z3.Const('user_desc', Val))
    iterable = SVal(z3.Const('iterable', Val))
    sp.no_display = True
    bar = new_bar(it, sp, with_rep, dict(kwargs), [iterable])
    it.cover('kwargs')
    inits = [c for c in sp.base_calls if c[0] == 'init']
    it.oblige('P08: the base bar is initialised once', len(inits) == 1)
    _, args, got = inits[0]
    it.oblige('P08: positional arguments are passed through',
              len(args) == 1 and it.tv(args[0]).eq(iterable.t))
    extra = set(got) - set(kwargs)
    if sp.base_shown is not None:
      shown = bar.fields['displayed']
      suppress = False
      if with_rep and 'display' not in kwargs:
        suppress = it.branch(it.truth(it.getattr(sp.config(it), 'suppress_display')))
      if suppress:
        it.oblige('P08: a suppressed widget counts as displayed, so that it is not shown later', it.eq(shown, True))
      else:
        it.oblige('P08: whether another widget is displayed is left to the bar', it.eq(shown, sp.base_shown))
    for n, v in kwargs.items():
      it.oblige(f'P08: what the user passes wins ({n})', n in got and it.tv(got[n]) == v.t)
    if not with_rep:
      it.oblige('P08: without a reporter nothing is added', not extra)
      return
    cfg = sp.config(it)
    for n in ('mininterval', 'maxinterval', 'miniters'):
      if n in kwargs:
        continue
      c = it.getattr(cfg, n)
      if c is None:
        it.oblige(f'P08: unset configuration adds nothing ({n})', n not in extra)
      else:
        it.oblige(f'P08: configuration applies where the user is silent ({n})',
                  n in extra and it.eq(got[n], c))
    if 'file' not in kwargs:
      it.oblige('P08: terminal output is suppressed exactly if configured',
                z3.BoolVal('file' in extra) == z3.Bool('cfg_suppress_file'))
    if 'display' not in kwargs:
      it.oblige('P08: widget display is suppressed exactly if configured, in notebooks',
                z3.BoolVal('display' in extra) == z3.And(sp.is_nb, z3.Bool('cfg_suppress_display')))
      if 'display' in extra:
        it.oblige('P08: suppressed display is False', it.eq(got['display'], False))
    it.oblige('P08: nothing else is added',
              extra <= {'file', 'display', 'mininterval', 'maxinterval', 'miniters'})
  return harness


class KwSpec(TqdmSpec):
  vary_config = True

  def base_init(self, it, a, k):
    self.base_calls.append(('init', list(a[1:]), dict(k)))
    a[0].fields['disable'] = False
    a[0].fields['leave'] = True
    self.base_shown = None
    if it.branch(self.is_nb):
      # A notebook bar decides here whether its widget is shown at once; if not,
      # and `displayed` is not set, a later display may show it (after its delay).
      self.base_shown = SBool(it.fresh('shown', z3.BoolSort()))
      a[0].fields['displayed'] = self.base_shown
    return None


# -- P09: ProgressState --------------------------------------------------------


def sym_state(it, sp, **fixed):
  m = it.prog.module(TYP)
  cls = it.modname(m, 'ProgressState')
  optr = lambda n: None if it.choose(n + ' is None') else SReal(z3.Real('s_' + n))
  opts = lambda n: None if it.choose(n + ' is None') else SStr(z3.String('s_' + n))
  kw = dict(n=optr('n'), total=optr('total'), elapsed_secs=SReal(z3.Real('s_elapsed')), rate=optr('rate'),
            initial=SReal(z3.Real('s_initial')), unit=SStr(z3.String('s_unit')), desc=opts('desc'),
            postfix=opts('postfix'), bar_id=SStr(z3.String('s_bar_id')),
            is_closed=SBool(z3.Bool('s_closed')), is_displayed=SBool(z3.Bool('s_displayed')))
  return it.call(cls, [], kw), kw, cls


def h_roundtrip(sp):
  def harness(it):
    st, kw, cls = sym_state(it, sp)
    p = it.call(it.getattr(st, 'to_proto'), [], {})
    back = it.call(it.getattr(cls, 'from_proto'), [p], {})
    it.cover('roundtrip')
    g = lambda n: it.getattr(back, n)
    ob = lambda n, f: it.oblige(f'P09: round trip: {n}', f)
    ob('n (unknown becomes zero)', it.eq(g('n'), kw['n'] if kw['n'] is not None else 0.0))
    for n in ('total', 'rate', 'desc', 'postfix'):
      v = kw[n]
      if v is None:
        ob(f'{n}: unknown stays unknown', g(n) is None or it.tv(g(n)) == NONE)
      elif it.branch(it.truth(v)):
        ob(f'{n}: kept', _eqv(it, g(n), v))
      else:
        ob(f'{n}: zero/empty means unknown', it.tv(g(n)) == NONE)
    for n in ('elapsed_secs', 'initial', 'bar_id', 'is_closed', 'is_displayed'):
      ob(f'{n}: kept', _eqv(it, g(n), kw[n]))
    ob('unit: kept (empty becomes the default)', _eqv(it, g('unit'), SStr(
        z3.If(kw['unit'].t == '', z3.StringVal('it'), kw['unit'].t))))
    p2 = it.call(it.getattr(back, 'to_proto'), [], {})
    for n in sp.fields(it):
      if n == 'unit':
        ob('record is stable: unit', z3.Or(kw['unit'].t == '', it.eq(p2.fields[n], p.fields[n])))
      else:
        ob(f'record is stable: {n}', it.eq(p2.fields[n], p.fields[n]))
  return harness


def _eqv(it, a, b):
  if a is None:
    return False
  return it.eq(a, b)


def h_record(sp):
  """Each field of the record carries the like-named value."""
  def harness(it):
    st, kw, cls = sym_state(it, sp)
    p = it.call(it.getattr(st, 'to_proto'), [], {})
    it.cover('record')
    for n, v in kw.items():
      if n not in p.fields:
        it.oblige(f'P09: record has {n}', False)
        continue
      want = v
      if v is None:
        want = 0.0 if n in ('n', 'total', 'rate') else ''
      it.oblige(f'P09: record field {n}', it.eq(p.fields[n], want))
  return harness


def h_derived(sp):
  def harness(it):
    st, kw, cls = sym_state(it, sp)
    fr = it.getattr(st, 'fraction')
    rem = it.getattr(st, 'remaining_s')
    it.cover('derived')
    n, t, r = kw['n'], kw['total'], kw['rate']
    known = lambda v: z3.BoolVal(False) if v is None else it.real_t(v) != 0
    has_n = z3.BoolVal(n is not None)
    c = z3.And(has_n, known(t))
    it.oblige('P09: fraction is known exactly if counter and total are', (z3.BoolVal(fr is None)) == z3.Not(c))
    if fr is not None and n is not None and t is not None:
      it.oblige('P09: fraction times total is the counter', it.real_t(fr) * it.real_t(t) == it.real_t(n))
    c = z3.And(has_n, known(t), known(r))
    it.oblige('P09: remaining time is known exactly if counter, total and rate are',
              z3.BoolVal(rem is None) == z3.Not(c))
    if rem is not None and n is not None and t is not None and r is not None:
      it.oblige('P09: remaining time times rate is what is left',
                it.real_t(rem) * it.real_t(r) == it.real_t(t) - it.real_t(n))
  return harness


# -- P10: reporter lock --------------------------------------------------------


def h_lock(sp):
  def harness(it):
    m = it.prog.module(TYP)
    base = it.modname(m, 'ProgressReporter')
    log = []
    fail = it.choose('hook fails')
    reenter = it.choose('hook re-enters')
    deliver = it.new_obj(ValueError)
    cfg = SVal(z3.Const('config', Val))

    def impl(it_, a, k):
      log.append(('impl', a[1] if len(a) > 1 else None, held()))
      if reenter and len(log) < 2:
        it.getattr(r, 'tqdm_config')
      if fail:
        raise PyRaise(deliver)

    def conf(it_, a, k):
      log.append(('conf', None, held()))
      if fail and len(log) == 1:
        raise PyRaise(deliver)
      return cfg

    def held():
      ls = it.ghost.get('locks', [])
      return bool(ls) and any(l.depth > 0 for l in ls)

    sub = ClassVal('UserReporter', base.node, base.module, None)
    sub.bases = [base]
    sub.birth = it.tick()
    sub.fields = []
    sub.attrs = {'_set_progress_impl': Builtin('user hook', impl), '_get_config': Builtin('user config hook', conf)}
    r = it.call(sub, [], {})
    nlocks = len(it.ghost.get('locks', []))
    st = SVal(z3.Const('state', Val))
    which = it.choose('set_progress')
    exc = res = None
    try:
      if which:
        res = it.call(it.getattr(r, 'set_progress'), [], {'state': st})
      else:
        res = it.getattr(r, 'tqdm_config')
    except PyRaise as x:
      exc = x.exc
    it.cover('lock')
    it.oblige('P10: the hook runs, with the lock held', bool(log) and all(x[2] for x in log))
    if which:
      it.oblige('P10: the hook gets the reported state',
                log[0][0] == 'impl' and log[0][1] is not None and it.tv(log[0][1]).eq(st.t))
      it.oblige('P10: one call of the hook per report', sum(x[0] == 'impl' for x in log) == 1)
    else:
      it.oblige('P10: configuration comes from the hook', fail or it.tv(res).eq(cfg.t))
    it.oblige('P10: failures of the hook reach the caller', exc is (deliver if fail else None))
    it.oblige('P10: the lock is released on every exit',
              all(l.depth == 0 for l in it.ghost.get('locks', [])))
    it.lemma('P10: one lock per reporter, created once', nlocks == 1 and len(it.ghost['locks']) == 1)
  return harness


def h_barlock(sp):
  """A bar reports only through set_progress (the locked entry point)."""
  def harness(it):
    m = it.prog.module(TYP)
    base = it.modname(m, 'ProgressReporter')
    log = []
    held = lambda: any(l.depth > 0 for l in it.ghost.get('locks', []))

    def impl(it_, a, k):
      log.append(('impl', held()))

    sub = ClassVal('UserReporter', base.node, base.module, None)
    sub.bases = [base]
    sub.birth = it.tick()
    sub.fields = []
    sub.attrs = {'_set_progress_impl': Builtin('user hook', impl)}
    r = it.call(sub, [], {})
    it.call(it.modname(it.prog.module(CTX), 'set_reporter'), [r], {})
    bar = it.call(it.modname(it.prog.module(BAR), 'tqdm'), [], {})
    havoc_base(it, bar)
    if it.choose('display'):
      it.call(it.getattr(bar, 'display'), [], {})
    it.call(it.getattr(bar, 'close'), [], {})
    it.cover('barlock')
    it.oblige('P10: reports of a bar reach the hook only with the lock held',
              bool(log) and all(h for _, h in log))
    it.oblige('P10: the lock is free afterwards', not held())
  return harness


PROOFS = {
    'P06': {'scope': (CtxSpec, h_scope), 'tokens': (CtxSpec, h_tokens), 'default': (CtxSpec, h_default)},
    'P07': {'display': (TqdmSpec, lambda sp: h_bar(sp, True)), 'close': (TqdmSpec, lambda sp: h_bar(sp, False))},
    'P08': {'kwargs': (KwSpec, h_kwargs)},
    'P09': {'roundtrip': (TqdmSpec, h_roundtrip), 'record': (TqdmSpec, h_record), 'derived': (TqdmSpec, h_derived)},
    'P10': {'reporter': (TqdmSpec, h_lock), 'bar': (TqdmSpec, h_barlock)},
}


def proofs(prop):
  for n, (s, h) in PROOFS[prop].items():
    yield n, s, h
