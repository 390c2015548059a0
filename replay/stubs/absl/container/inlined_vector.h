#pragma once
#include <vector>
namespace absl {
template <class T, size_t N>
using InlinedVector = std::vector<T>;
}  // namespace absl
