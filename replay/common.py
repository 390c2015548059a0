"""Import environment for the real code: /repo/py, generated protos, stubs."""

import atexit
import importlib.abc
import importlib.machinery
import os
import shutil
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
_scratch = None


def scratch():
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix='verif_replay_')
    atexit.register(cleanup)
  return _scratch


def cleanup():
  global _scratch
  if _scratch is not None:
    shutil.rmtree(_scratch, True)
    _scratch = None


def setup():
  sys.path.insert(0, os.path.join(REPO, 'py'))
  sys.dont_write_bytecode = True


def gen_protos(*rel):
  """Compiles .proto files of the current tree into the scratch directory."""
  out = os.path.join(scratch(), 'gen')
  os.makedirs(out, exist_ok=True)
  import grpc_tools
  inc = os.path.join(os.path.dirname(grpc_tools.__file__), '_proto')
  subprocess.run(
      [sys.executable, '-m', 'grpc_tools.protoc', f'-I{REPO}', f'-I{inc}',
       f'--python_out={out}'] + list(rel),
      check=True, capture_output=True, cwd=REPO)
  # The generated packages live below `py/`; merge them with /repo/py's.
  for p in (os.path.join(out, 'py'), out):
    if p not in sys.path:
      sys.path.append(p)
  return out


class _StubModule(types.ModuleType):

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    v = _Stub(self.__name__ + '.' + name)
    setattr(self, name, v)
    return v


class _Stub:
  """Stands for an object of a dependency that is not installed here."""

  def __init__(self, name):
    self.__dict__['_name'] = name

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    v = _Stub(self._name + '.' + name)
    self.__dict__[name] = v
    return v

  def __call__(self, *a, **k):
    return _Stub(self._name + '()')

  def __getitem__(self, i):
    return _Stub(self._name + '[]')

  def __or__(self, o):
    return _Stub('union')

  __ror__ = __or__

  def __mro_entries__(self, bases):
    return (object,)

  def __iter__(self):
    return iter(())

  def __repr__(self):
    return f'<stub {self._name}>'


class StubFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  """Serves stub modules for the given names and everything below them."""

  def __init__(self, names):
    self.names = tuple(names)

  def find_spec(self, fullname, path=None, target=None):
    if any(fullname == n or fullname.startswith(n + '.') for n in self.names):
      return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
    return None

  def create_module(self, spec):
    m = _StubModule(spec.name)
    m.__path__ = []
    return m

  def exec_module(self, module):
    pass


def stub_modules(*names):
  sys.meta_path.insert(0, StubFinder(names))
