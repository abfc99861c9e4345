// Stand-in for gch::small_vector (https://github.com/gharveymn/small_vector),
// which this sandbox does not have. It offers the std::vector interface, which
// is a superset of what Sleipnir uses.
#pragma once

#include <cstddef>
#include <initializer_list>
#include <memory>
#include <utility>
#include <vector>

namespace gch {

template <typename T, unsigned InlineCapacity = 5,
          typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator> {
 public:
  using base = std::vector<T, Allocator>;
  using base::base;
  using base::operator=;
  small_vector() = default;
};

template <typename T, unsigned N, typename A, typename Pred>
auto erase_if(small_vector<T, N, A>& v, Pred pred) {
  return std::erase_if(static_cast<std::vector<T, A>&>(v), pred);
}
template <typename T, unsigned N, typename A, typename U>
auto erase(small_vector<T, N, A>& v, const U& value) {
  return std::erase(static_cast<std::vector<T, A>&>(v), value);
}

}  // namespace gch
