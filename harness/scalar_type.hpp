// A scalar type that is a double, but converts only explicitly.
#pragma once

#include <cmath>
#include <concepts>
#include <format>
#include <limits>
#include <ostream>

#include <Eigen/Core>

class Num {
 public:
  constexpr Num() noexcept = default;
  explicit constexpr Num(std::floating_point auto v) noexcept : m{static_cast<double>(v)} {}
  // Not explicit from int, because Eigen 3.4's SparseVector inserts zeros
  template <std::integral T>
  explicit(!std::same_as<T, int>) constexpr Num(T v) noexcept : m{static_cast<double>(v)} {}
  constexpr double value() const { return m; }
  constexpr Num& operator+=(const Num& b) { m += b.m; return *this; }
  constexpr Num& operator-=(const Num& b) { m -= b.m; return *this; }
  constexpr Num& operator*=(const Num& b) { m *= b.m; return *this; }
  constexpr Num& operator/=(const Num& b) { m /= b.m; return *this; }
  constexpr Num& operator++() { ++m; return *this; }
  constexpr Num& operator--() { --m; return *this; }
  constexpr Num operator++(int) { Num r = *this; ++m; return r; }
  constexpr Num operator--(int) { Num r = *this; --m; return r; }
  constexpr Num operator+() const { return *this; }
  constexpr Num operator-() const { return Num{-m}; }
  friend constexpr Num operator+(const Num& a, const Num& b) { return Num{a.m + b.m}; }
  friend constexpr Num operator-(const Num& a, const Num& b) { return Num{a.m - b.m}; }
  friend constexpr Num operator*(const Num& a, const Num& b) { return Num{a.m * b.m}; }
  friend constexpr Num operator/(const Num& a, const Num& b) { return Num{a.m / b.m}; }
  friend constexpr auto operator<=>(const Num&, const Num&) = default;
  explicit constexpr operator double() const { return m; }
  explicit constexpr operator int() const { return static_cast<int>(m); }

#define NUM_FN(f) friend Num f(const Num& x) { return Num{std::f(x.m)}; }
  NUM_FN(abs) NUM_FN(acos) NUM_FN(asin) NUM_FN(atan) NUM_FN(cbrt) NUM_FN(cos) NUM_FN(cosh) NUM_FN(erf) NUM_FN(exp) NUM_FN(log)
  NUM_FN(log10) NUM_FN(sin) NUM_FN(sinh) NUM_FN(sqrt) NUM_FN(tan) NUM_FN(tanh)
#undef NUM_FN
  friend Num atan2(const Num& y, const Num& x) { return Num{std::atan2(y.m, x.m)}; }
  friend Num hypot(const Num& x, const Num& y) { return Num{std::hypot(x.m, y.m)}; }
  friend Num hypot(const Num& x, const Num& y, const Num& z) { return Num{std::hypot(x.m, y.m, z.m)}; }
  friend Num pow(const Num& x, const Num& y) { return Num{std::pow(x.m, y.m)}; }
  friend bool isfinite(const Num& x) { return std::isfinite(x.m); }
  friend bool isinf(const Num& x) { return std::isinf(x.m); }
  friend bool isnan(const Num& x) { return std::isnan(x.m); }
  template <typename C, typename T>
  friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Num& x) { return os << x.m; }

 private:
  double m;
};

template <>
struct std::formatter<Num> {
  constexpr auto parse(std::format_parse_context& ctx) { return u.parse(ctx); }
  template <typename C>
  auto format(const Num& x, C& ctx) const { return u.format(x.value(), ctx); }
  std::formatter<double> u;
};

template <>
struct std::numeric_limits<Num> : std::numeric_limits<double> {
  using B = std::numeric_limits<double>;
  static constexpr Num min() noexcept { return Num{B::min()}; }
  static constexpr Num max() noexcept { return Num{B::max()}; }
  static constexpr Num lowest() noexcept { return Num{B::lowest()}; }
  static constexpr Num epsilon() noexcept { return Num{B::epsilon()}; }
  static constexpr Num round_error() noexcept { return Num{B::round_error()}; }
  static constexpr Num infinity() noexcept { return Num{B::infinity()}; }
  static constexpr Num quiet_NaN() noexcept { return Num{B::quiet_NaN()}; }
  static constexpr Num signaling_NaN() noexcept { return Num{B::signaling_NaN()}; }
  static constexpr Num denorm_min() noexcept { return Num{B::denorm_min()}; }
};

template <>
struct Eigen::NumTraits<Num> : Eigen::NumTraits<double> {
  using Real = Num;
  using NonInteger = Num;
  using Nested = Num;
  using Literal = double;
  static inline Num epsilon() { return std::numeric_limits<Num>::epsilon(); }
  static inline Num dummy_precision() { return Num{Eigen::NumTraits<double>::dummy_precision()}; }
  static inline Num highest() { return std::numeric_limits<Num>::max(); }
  static inline Num lowest() { return std::numeric_limits<Num>::lowest(); }
  static inline Num infinity() { return std::numeric_limits<Num>::infinity(); }
  static inline Num quiet_NaN() { return std::numeric_limits<Num>::quiet_NaN(); }
};
