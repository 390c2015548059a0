"""Base class of all sidecar contracts: hooks with neutral defaults."""

from pyvc.core import UNDEF


class Spec:
  """Contracts and models for one proof.

  models:    dotted external name -> value (trusted library contract)
  contracts: (module, qualname) -> handler(it, fn, args, kwargs) used at call
             sites instead of the body (modular verification)
  """

  def __init__(self):
    self.models = {}
    self.contracts = {}
    self.overrides = {}
    self.externals = set()
    self.bodies_under_proof = set()

  def override(self, it, module, name):
    return self.overrides.get((module.name, name), UNDEF)

  def model(self, it, dotted):
    return self.models.get(dotted, UNDEF)

  def is_external(self, dotted):
    return dotted in self.externals

  def contract(self, it, fn):
    return self.contracts.get((fn.module.name, fn.qualname))

  def decorator(self, it, name, dec, v, frame):
    return UNDEF

  def class_hook(self, it, cls):
    pass

  def frozen_hook(self, it, obj):
    pass

  def instantiate(self, it, cls, args, kwargs):
    return UNDEF

  def on_read(self, it, obj, name):
    pass

  def on_write(self, it, obj, name, val):
    pass

  def on_dict(self, it, d, what):
    pass

  def loop_invariants(self, it, L):
    return []

  def variant(self, it, L):
    return None

  def cut_while(self, it, st, fr):
    return True

  def after_havoc(self, it):
    pass

  def havoc_class_attr(self, it, key):
    return UNDEF

  def with_model(self, it, cm, run):
    return UNDEF

  def path_join(self, it, a):
    from pyvc.core import Unsupported
    raise Unsupported('os.path.join of symbolic strings')

  def zip_star(self, it, srcs, star, strict):
    from pyvc.core import Unsupported
    raise Unsupported('zip(*symbolic)')

  def _undef(self, *a, **k):
    return UNDEF

  opaque_attr = _undef
  set_opaque_attr = _undef
  obj_attr = _undef
  class_attr_hook = _undef
  ext_class_attr = _undef
  ext_subscript = _undef
  call_opaque = _undef
  call_type = _undef
  obj_truth = _undef
  obj_eq = _undef
  opaque_eq = _undef
  opaque_order = _undef
  obj_kind = _undef
  fresh_obj = _undef
  opaque_contains = _undef
  opaque_getitem = _undef
  opaque_setitem = _undef
  obj_getitem = _undef
  keyrep = _undef
  opaque_key = _undef
  iter_opaque = _undef
  materialize = _undef
  isinstance_ = _undef
  issubclass_ = _undef
  callable_ = _undef
  dyn_getattr = _undef
  dyn_setattr = _undef
  hasattr_ = _undef
  sorted_ = _undef
  sum_ = _undef
  sym_join = _undef
  format_value = _undef
  binop = _undef
  list_item = _undef
  minmax = _undef
  reify = _undef
  concat = _undef
  call_ext = _undef
  str_method = _undef
