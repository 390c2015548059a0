#pragma once
#include <Python.h>

#include "absl/types/span.h"
namespace arolla::python {
class PyObjectPtr {
 public:
  PyObjectPtr() = default;
  PyObjectPtr(std::nullptr_t) {}
  PyObjectPtr(PyObjectPtr&& o) : p_(o.p_) { o.p_ = nullptr; }
  PyObjectPtr& operator=(PyObjectPtr&& o) {
    Py_XDECREF(p_);
    p_ = o.p_;
    o.p_ = nullptr;
    return *this;
  }
  ~PyObjectPtr() { Py_XDECREF(p_); }
  static PyObjectPtr Own(PyObject* p) {
    PyObjectPtr r;
    r.p_ = p;
    return r;
  }
  static PyObjectPtr NewRef(PyObject* p) {
    Py_XINCREF(p);
    return Own(p);
  }
  PyObject* get() const { return p_; }
  PyObject* release() {
    PyObject* p = p_;
    p_ = nullptr;
    return p;
  }
  bool operator==(std::nullptr_t) const { return p_ == nullptr; }
  bool operator!=(std::nullptr_t) const { return p_ != nullptr; }

 private:
  PyObject* p_ = nullptr;
};
inline void DCheckPyGIL() {}
inline bool PyTuple_AsSpan(PyObject* o, absl::Span<PyObject*>* out) {
  if (PyTuple_Check(o)) {
    *out = {reinterpret_cast<PyTupleObject*>(o)->ob_item, static_cast<size_t>(PyTuple_GET_SIZE(o))};
    return true;
  }
  if (PyList_Check(o)) {
    *out = {reinterpret_cast<PyListObject*>(o)->ob_item, static_cast<size_t>(PyList_GET_SIZE(o))};
    return true;
  }
  return false;
}
}  // namespace arolla::python
