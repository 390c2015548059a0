// Minimal stand-in, used only to run clib.cc in the executable contract.
#pragma once
#include <cstddef>
namespace absl {
template <class T>
class Span {
 public:
  Span() = default;
  Span(T* p, size_t n) : p_(p), n_(n) {}
  template <class C, class = decltype(static_cast<C*>(nullptr)->data())>
  Span(const C& c) : p_(const_cast<C&>(c).data()), n_(c.size()) {}
  T& operator[](size_t i) const { return p_[i]; }
  T* data() const { return p_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }

 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
template <class C>
auto MakeSpan(C& c) {
  return Span<typename C::value_type>(c.data(), c.size());
}
template <class C>
auto MakeConstSpan(C& c) {
  return Span<const typename C::value_type>(c.data(), c.size());
}
}  // namespace absl
