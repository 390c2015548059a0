"""A fake `koladata.kd` (the C++ part is not installed) and an in-memory file system.

Only what the storage layer reads from `kd` is provided: data bags are plain
dictionaries, `kd.bags.updated` merges left to right, `kd.s11n.dump/load` are
the real Python functions of koladata/functions/s11n.py over pickled bags.
"""

import base64
import fnmatch
import io
import itertools
import pickle
import posixpath
import re
import sys
import threading
import types

import common


class FakeBag:
  """Stands for a koda DataBag: an immutable mapping key -> value."""

  def __init__(self, data):
    self.data = dict(data)

  def get_approx_byte_size(self):
    return 8 * len(self.data) + 8

  def __eq__(self, o):
    return isinstance(o, FakeBag) and list(self.data.items()) == list(o.data.items())

  __hash__ = None

  def __repr__(self):
    return f'FakeBag({self.data})'


class FakeSlice:
  pass


def updated(*bags):
  d = {}
  for b in bags:
    d.update(b.data)
  return FakeBag(d)


class _PyStr:

  def __init__(self, v):
    self.v = v

  def to_py(self):
    return self.v


_done = {}


def install():
  """Puts the fake kd in sys.modules; returns it."""
  if 'kd' in _done:
    return _done['kd']
  common.stub_modules('arolla', 'koladata.types', 'koladata.base', 'koladata.expr',
                      'koladata.operators', 'koladata.functor')
  import koladata  # namespace package of /repo/py
  from koladata.file_io import file_io, fs_interface, fs_implementation
  kd = types.ModuleType('koladata.kd')
  kd.types = types.SimpleNamespace(DataBag=FakeBag, DataSlice=FakeSlice, DataItem=FakeSlice)
  kd.bags = types.SimpleNamespace(updated=updated)
  kd.bag = lambda: FakeBag({})
  kd.file_io = types.SimpleNamespace(
      FileSystemInterface=fs_interface.FileSystemInterface,
      FileSystemInteraction=fs_implementation.FileSystemInteraction,
      get_default_file_system_interaction=file_io.get_default_file_system_interaction)
  from koladata.functions import s11n
  s11n.dumps = lambda x, **kw: pickle.dumps(x)
  s11n.loads = lambda b: pickle.loads(b)
  kd.s11n = types.SimpleNamespace(dump=s11n.dump, load=s11n.load)

  def as_str(x):
    return x.v if isinstance(x, _PyStr) else x

  def decode_base64(s):
    s = as_str(s)
    return _PyStr(base64.b64decode(s.encode('utf-8'), validate=True))

  def decode(b):
    return _PyStr(as_str(b).decode('utf-8'))

  kd.strings = types.SimpleNamespace(
      encode=lambda s: _PyStr(as_str(s).encode('utf-8')),
      encode_base64=lambda b: _PyStr(base64.b64encode(as_str(b)).decode('ascii')),
      decode=decode, decode_base64=decode_base64)
  sys.modules['koladata.kd'] = kd
  koladata.kd = kd
  _done['kd'] = kd
  return kd


class Fault(OSError):
  pass


class Crash(BaseException):
  pass


class MemFS:
  """In-memory POSIX-like file system with atomic no-overwrite renames.

  hook(op_index, name, args) is called before each elementary operation; it may
  raise, or act on the file system as another process would.
  """

  def __init__(self):
    self.files = {}
    self.dirs = {'/'}
    self.log = []
    self.hook = None
    self.after = None
    self.overwritten = []  # (path, old, new) of pre-existing files
    self.removed = []
    self.lock = threading.RLock()

  def clone(self):
    f = MemFS()
    f.files = dict(self.files)
    f.dirs = set(self.dirs)
    return f

  def alias(self):
    """Another object for the same storage, with a log of its own."""
    f = MemFS()
    f.files, f.dirs, f.lock, f.overwritten, f.removed = (
        self.files, self.dirs, self.lock, self.overwritten, self.removed)
    return f

  def op(self, name, *args):
    with self.lock:
      i = len(self.log)
      self.log.append((name,) + args)
      h = self.hook
    if h:
      h(i, name, args)
    return i

  def done(self, i, name, args):
    if self.after:
      self.after(i, name, args)

  def _n(self, p):
    return posixpath.normpath(p)

  def exists(self, p):
    i = self.op('exists', p)
    r = self._n(p) in self.files or self._n(p) in self.dirs
    self.done(i, 'exists', (p,))
    return r

  def is_dir(self, p):
    self.op('is_dir', p)
    return self._n(p) in self.dirs

  def remove(self, p):
    i = self.op('remove', p)
    q = self._n(p)
    if q not in self.files:
      raise FileNotFoundError(p)
    self.removed.append((q, self.files.pop(q)))
    self.done(i, 'remove', (p,))

  def make_dirs(self, p):
    i = self.op('make_dirs', p)
    q = self._n(p)
    if q in self.files:
      raise FileExistsError(p)
    while q not in self.dirs:
      self.dirs.add(q)
      q = posixpath.dirname(q) or '/'
    self.done(i, 'make_dirs', (p,))

  def glob(self, pattern):
    i = self.op('glob', pattern)
    out = []
    parts = self._n(pattern).split('/')
    for q in sorted(itertools.chain(self.files, self.dirs), reverse=True):
      qs = q.split('/')
      if len(qs) == len(parts) and all(
          fnmatch.fnmatchcase(a, b) and (not a.startswith('.') or b.startswith('.'))
          for a, b in zip(qs, parts)):
        out.append(q if pattern.startswith('/') else q)
    self.done(i, 'glob', (pattern,))
    return out

  def open(self, p, mode):
    i = self.op('open', p, mode)
    q = self._n(p)
    if 'r' in mode:
      if q not in self.files:
        raise FileNotFoundError(p)
      data = self.files[q]
      self.done(i, 'open', (p, mode))
      return io.BytesIO(data) if 'b' in mode else io.StringIO(data.decode())
    if posixpath.dirname(q) not in self.dirs:
      raise FileNotFoundError(p)
    if 'x' in mode and q in self.files:
      raise FileExistsError(p)
    if q in self.files:
      self.overwritten.append((q, self.files[q], None))
    if 'a' not in mode:
      self.files[q] = b''
    self.done(i, 'open', (p, mode))
    return _Writer(self, q, 'b' in mode)

  def rename(self, a, b, overwrite=False):
    i = self.op('rename', a, b, overwrite)
    with self.lock:
      x, y = self._n(a), self._n(b)
      if x not in self.files:
        raise FileNotFoundError(a)
      if y in self.dirs:
        raise IsADirectoryError(b)
      if y in self.files:
        if not overwrite:
          raise ValueError(f'Destination {b} already exists.')
        self.overwritten.append((y, self.files[y], self.files[x]))
      if posixpath.dirname(y) not in self.dirs:
        raise FileNotFoundError(b)
      self.files[y] = self.files.pop(x)
    self.done(i, 'rename', (a, b))


class _Writer:

  def __init__(self, fs, path, binary):
    self.fs = fs
    self.path = path
    self.binary = binary
    self.buf = []
    self.closed = False

  def write(self, data):
    if not self.binary:
      data = data.encode()
    fs = self.fs
    try:
      i = fs.op('write', self.path, len(data))
    except BaseException:
      if self.path in fs.files:
        fs.files[self.path] += data[:len(data) // 2]  # a torn write
      raise
    fs.files[self.path] = fs.files.get(self.path, b'') + data
    fs.done(i, 'write', (self.path,))
    return len(data)

  def flush(self):
    pass

  def close(self):
    if not self.closed:
      self.closed = True
      i = self.fs.op('close', self.path)
      self.fs.done(i, 'close', (self.path,))

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()
    return False


class LazyExecutor:
  """A legal scheduler of concurrent.futures: a task runs as late as it may."""

  order = 'late'

  def __init__(self, max_workers=None, *a, **k):
    self.todo = []

  def submit(self, fn, *a, **k):
    f = LazyFuture(lambda: fn(*a, **k), self)
    self.todo.append(f)
    if LazyExecutor.order == 'early':
      f.run()
    return f

  def map(self, fn, *its, **k):
    fs = [self.submit(fn, *x) for x in zip(*its)]
    return (f.result() for f in fs)

  def shutdown(self, wait=True, cancel_futures=False):
    if wait:
      for f in (reversed(self.todo) if LazyExecutor.order == 'reverse' else self.todo):
        f.run()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.shutdown()
    return False


class LazyFuture:

  def __init__(self, thunk, ex):
    self.thunk = thunk
    self.state = None

  def run(self):
    if self.state is None:
      try:
        self.state = ('ok', self.thunk())
      except Crash:
        raise
      except BaseException as e:
        self.state = ('err', e)

  def result(self, timeout=None):
    self.run()
    if self.state[0] == 'err':
      raise self.state[1]
    return self.state[1]

  def exception(self, timeout=None):
    self.run()
    return self.state[1] if self.state[0] == 'err' else None

  def done(self):
    return self.state is not None

  def running(self):
    return False

  def cancelled(self):
    return False

  def cancel(self):
    return False

  def add_done_callback(self, fn):
    self.run()
    fn(self)
