// Force-included before everything else. Sleipnir targets Eigen's main branch;
// the sandbox has Eigen 3.4.0. This adds the API that is missing in 3.4.0.
#pragma once
#include <cstdio>
#include <cstdlib>
#define EIGEN_SPARSEMATRIX_PLUGIN "eigen_sparse_plugin.inc"
#define EIGEN_DENSEBASE_PLUGIN "eigen_dense_plugin.inc"
#define EIGEN_MATRIXBASE_PLUGIN "eigen_matrix_plugin.inc"
#include <Eigen/Core>
#include <Eigen/SparseCore>

namespace Eigen {
// Eigen main: product of two diagonal expressions
template <typename A, typename B>
DiagonalMatrix<typename A::Scalar, Dynamic> operator*(const DiagonalBase<A>& a,
                                                      const DiagonalBase<B>& b) {
  return DiagonalMatrix<typename A::Scalar, Dynamic>{
      a.derived().diagonal().cwiseProduct(b.derived().diagonal())};
}
}  // namespace Eigen

// Eigen 3.4.0's Householder and PartialPivLU compare scalars with !=, where
// Eigen main uses numext::is_exactly_zero() (which uses ==).
#include <type_traits>
namespace slp {
template <typename Scalar_>
class Variable;
namespace compat {
template <typename T>
inline constexpr bool is_variable = false;
template <typename S>
inline constexpr bool is_variable<Variable<S>> = true;
}  // namespace compat
template <typename L, typename R>
  requires(compat::is_variable<std::remove_cvref_t<L>> &&
           compat::is_variable<std::remove_cvref_t<R>>)
bool operator!=(L&& l, R&& r) {
  return !static_cast<bool>(l == r);
}
}  // namespace slp
