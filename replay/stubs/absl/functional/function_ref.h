#pragma once
#include <functional>
namespace absl {
template <class F>
using FunctionRef = std::function<F>;
}  // namespace absl
