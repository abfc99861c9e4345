// Independent reference for scalar expressions: an append-only program of nodes
// over leaves, evaluated in long double with forward-mode second-order jets.
// Every jet carries a magnitude bound (sum of absolute contributions) that the
// comparison tolerance is derived from.
#pragma once

#include <array>
#include <cmath>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace ref {

using LD = long double;
inline constexpr int N = 6;  // max. differentiation variables

enum Op {
  LEAF, CONST,
  NEG, POS, ABS, ACOS, ASIN, ATAN, CBRT, COS, COSH, ERF, EXP, LOG, LOG10, SIGN, SIN, SINH, SQRT, TAN, TANH,
  ADD, SUB, MUL, DIV, ATAN2, HYPOT, MAX, MIN, POW,
  HYPOT3,
  NUM_OPS
};
inline const char* op_name(int o) {
  static const char* n[] = {"leaf", "const", "-", "+", "abs", "acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp",
                            "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "add", "sub", "mul", "div",
                            "atan2", "hypot", "max", "min", "pow", "hypot3"};
  return n[o];
}
inline int arity(int o) { return o < NEG ? 0 : o < ADD ? 1 : o < HYPOT3 ? 2 : 3; }

struct Node {
  int op;
  int a = -1, b = -1, c = -1;
  double k = 0;  // constant or leaf index
};

/// Second-order jet with magnitude bounds
struct Jet {
  LD v = 0, av = 0;
  std::array<LD, N> g{}, ag{};
  std::array<std::array<LD, N>, N> h{}, ah{};
  int n = 0;
  bool ok = true;      // all intermediate operations are well inside their domain
};

/// Chain rule for r = f(x), with f', f''
inline Jet chain1(const Jet& x, LD f, LD f1, LD f2, LD af) {
  Jet r;
  r.n = x.n;
  r.ok = x.ok;
  r.v = f;
  r.av = af;
  LD a1 = std::abs(f1), a2 = std::abs(f2);
  for (int i = 0; i < x.n; ++i) {
    r.g[i] = f1 * x.g[i];
    r.ag[i] = a1 * x.ag[i];
    for (int j = 0; j < x.n; ++j) {
      r.h[i][j] = f1 * x.h[i][j] + f2 * x.g[i] * x.g[j];
      r.ah[i][j] = a1 * x.ah[i][j] + a2 * x.ag[i] * x.ag[j];
    }
  }
  return r;
}

/// Chain rule for r = f(x, y)
inline Jet chain2(const Jet& x, const Jet& y, LD f, LD fx, LD fy, LD fxx, LD fxy, LD fyy, LD af) {
  Jet r;
  r.n = x.n;
  r.ok = x.ok && y.ok;
  r.v = f;
  r.av = af;
  LD ax = std::abs(fx), ay = std::abs(fy), axx = std::abs(fxx), axy = std::abs(fxy), ayy = std::abs(fyy);
  for (int i = 0; i < x.n; ++i) {
    r.g[i] = fx * x.g[i] + fy * y.g[i];
    r.ag[i] = ax * x.ag[i] + ay * y.ag[i];
    for (int j = 0; j < x.n; ++j) {
      r.h[i][j] = fx * x.h[i][j] + fy * y.h[i][j] + fxx * x.g[i] * x.g[j] + fxy * (x.g[i] * y.g[j] + y.g[i] * x.g[j]) +
                  fyy * y.g[i] * y.g[j];
      r.ah[i][j] = ax * x.ah[i][j] + ay * y.ah[i][j] + axx * x.ag[i] * x.ag[j] +
                   axy * (x.ag[i] * y.ag[j] + y.ag[i] * x.ag[j]) + ayy * y.ag[i] * y.ag[j];
    }
  }
  return r;
}

/// Whether the operation is comfortably inside the region where it and its first
/// two derivatives are well defined and well conditioned. y_const: the second
/// operand is a constant. all_const: all operands are, so only the value matters.
///
/// Sleipnir folds log(0), log10(0) and pow(0, p) of constants to 0 (its own tests
/// say so); these are outside the domain.
inline bool good(int op, LD x, LD y, LD z, bool y_const, bool all_const, LD ax = 1, LD ay = 1, bool same = false) {
  using std::abs;
  if (!(abs(x) < 1e3L) || !(abs(y) < 1e3L) || !(abs(z) < 1e3L)) return false;
  // A constant that is exactly zero in every evaluation order
  bool x0 = x == 0 && ax == 0, y0 = y == 0 && ay == 0;
  if (all_const) switch (op) {
    case SIGN: case CBRT: return x0 || abs(x) > 1e-3L;
    case ABS: case MAX: case MIN: case HYPOT: case HYPOT3: return true;
    case ACOS: case ASIN: return abs(x) < 0.95L || (abs(x) == 1 && ax == 1);
    case SQRT: return x0 || x > 1e-3L;
    case LOG: case LOG10: return x > 1e-3L;
    case ATAN2: return (x0 || abs(x) > 1e-3L) && (y0 || abs(y) > 1e-3L) && !(x0 && y <= 0);
    case DIV: return abs(y) > 1e-3L;
    case POW:
      if (x == 0) return x0 && y > 1e-3L;
      if (x < 0) return y == std::round(y) && ay == abs(y) && abs(y) <= 4 && x < -0.05L;
      return x > 0.05L && abs(y) < 4;
  }
  switch (op) {
    case ABS: case SIGN: case CBRT: return abs(x) > 0.02L;
    case ACOS: case ASIN: return abs(x) < 0.95L;
    case COSH: case SINH: case EXP: return abs(x) < 5;
    case LOG: case LOG10: case SQRT: return x > 0.02L;
    case TAN: return abs(std::cos(x)) > 0.1L && abs(x) < 50;
    case SIN: case COS: case TANH: return abs(x) < 50;
    case DIV: return abs(y) > 0.05L;
    case ATAN2: return x * x + y * y > 0.01L && !(y < 0.02L && abs(x) < 0.02L);
    case HYPOT: return x * x + y * y > 0.01L;
    case HYPOT3: return x * x + y * y + z * z > 0.01L;
    case MAX: case MIN: return same || abs(x - y) > 0.02L;
    case POW:
      if (y_const && y == std::round(y) && ay == abs(y) && abs(y) <= 4)
        return abs(x) < 10 && (y > 0 ? true : abs(x) > 0.1L);
      return x > 0.05L && x < 20 && abs(y) < 4;
    default: return true;
  }
}

inline LD eval_op(int op, LD x, LD y, LD z) {
  switch (op) {
    case NEG: return -x;
    case POS: return x;
    case ABS: return std::abs(x);
    case ACOS: return std::acos(x);
    case ASIN: return std::asin(x);
    case ATAN: return std::atan(x);
    case CBRT: return std::cbrt(x);
    case COS: return std::cos(x);
    case COSH: return std::cosh(x);
    case ERF: return std::erf(x);
    case EXP: return std::exp(x);
    case LOG: return std::log(x);
    case LOG10: return std::log10(x);
    case SIGN: return x < 0 ? -1 : x > 0 ? 1 : 0;
    case SIN: return std::sin(x);
    case SINH: return std::sinh(x);
    case SQRT: return std::sqrt(x);
    case TAN: return std::tan(x);
    case TANH: return std::tanh(x);
    case ADD: return x + y;
    case SUB: return x - y;
    case MUL: return x * y;
    case DIV: return x / y;
    case ATAN2: return std::atan2(x, y);
    case HYPOT: return std::hypot(x, y);
    case MAX: return x >= y ? x : y;
    case MIN: return x <= y ? x : y;
    case POW: return std::pow(x, y);
    case HYPOT3: return std::sqrt(x * x + y * y + z * z);
  }
  return 0;
}

inline Jet jet_op(int op, const Jet& X, const Jet& Y, const Jet& Z, bool y_const, bool all_const, bool same) {
  LD x = X.v, y = Y.v, z = Z.v;
  LD f = eval_op(op, x, y, z);
  Jet r;
  if (all_const) {
    r.n = X.n;
    r.v = f;
    r.av = std::abs(f) + X.av + Y.av + Z.av;
    r.ok = X.ok && (arity(op) < 2 || Y.ok) && (arity(op) < 3 || Z.ok) && good(op, x, y, z, y_const, true, X.av, Y.av) && std::abs(f) < 1e3L;
    return r;
  }
  auto fabsl_ = [](LD q) { return std::abs(q); };
  switch (op) {
    case NEG: r = chain1(X, f, -1, 0, X.av); break;
    case POS: r = chain1(X, f, 1, 0, X.av); break;
    case ABS: r = chain1(X, f, x < 0 ? -1 : 1, 0, X.av); break;
    case ACOS: { LD q = 1 - x * x; r = chain1(X, f, -1 / std::sqrt(q), -x / (q * std::sqrt(q)), 4 + X.av); break; }
    case ASIN: { LD q = 1 - x * x; r = chain1(X, f, 1 / std::sqrt(q), x / (q * std::sqrt(q)), 4 + X.av); break; }
    case ATAN: { LD q = 1 + x * x; r = chain1(X, f, 1 / q, -2 * x / (q * q), 2 + X.av); break; }
    case CBRT: r = chain1(X, f, 1 / (3 * f * f), -2 / (9 * f * f * x), fabsl_(f) + X.av / (3 * f * f)); break;
    case COS: r = chain1(X, f, -std::sin(x), -f, 1 + X.av); break;
    case COSH: r = chain1(X, f, std::sinh(x), f, f + f * X.av); break;
    case ERF: {
      LD d = 2 / std::sqrt(3.14159265358979323846264338327950288L) * std::exp(-x * x);
      r = chain1(X, f, d, -2 * x * d, 1 + X.av);
      break;
    }
    case EXP: r = chain1(X, f, f, f, f + f * X.av); break;
    case LOG: r = chain1(X, f, 1 / x, -1 / (x * x), fabsl_(f) + X.av / x); break;
    case LOG10: { LD l = std::log(10.0L); r = chain1(X, f, 1 / (x * l), -1 / (x * x * l), fabsl_(f) + X.av / x); break; }
    case SIGN: r = chain1(X, f, 0, 0, 1); break;
    case SIN: r = chain1(X, f, std::cos(x), -f, 1 + X.av); break;
    case SINH: r = chain1(X, f, std::cosh(x), f, fabsl_(f) + std::cosh(x) * X.av); break;
    case SQRT: r = chain1(X, f, 1 / (2 * f), -1 / (4 * f * x), f + X.av / f); break;
    case TAN: { LD q = 1 + f * f; r = chain1(X, f, q, 2 * f * q, fabsl_(f) + q * X.av); break; }
    case TANH: { LD q = 1 - f * f; r = chain1(X, f, q, -2 * f * q, 1 + X.av); break; }
    case ADD: r = chain2(X, Y, f, 1, 1, 0, 0, 0, X.av + Y.av); break;
    case SUB: r = chain2(X, Y, f, 1, -1, 0, 0, 0, X.av + Y.av); break;
    case MUL: r = chain2(X, Y, f, y, x, 0, 1, 0, X.av * fabsl_(y) + Y.av * fabsl_(x) + fabsl_(f)); break;
    case DIV: r = chain2(X, Y, f, 1 / y, -f / y, 0, -1 / (y * y), 2 * f / (y * y), fabsl_(f) + X.av / fabsl_(y) + Y.av * fabsl_(f / y)); break;
    case ATAN2: {
      // atan2(x, y): d/dx = y/(x²+y²), d/dy = -x/(x²+y²)
      LD q = x * x + y * y;
      r = chain2(X, Y, f, y / q, -x / q, -2 * x * y / (q * q), (x * x - y * y) / (q * q), 2 * x * y / (q * q),
                 4 + (X.av + Y.av) / std::sqrt(q));
      break;
    }
    case HYPOT: {
      LD q = f * f * f;
      r = chain2(X, Y, f, x / f, y / f, y * y / q, -x * y / q, x * x / q, f + X.av + Y.av);
      break;
    }
    case MAX: r = x >= y ? chain2(X, Y, f, 1, 0, 0, 0, 0, X.av) : chain2(X, Y, f, 0, 1, 0, 0, 0, Y.av); break;
    case MIN: r = x <= y ? chain2(X, Y, f, 1, 0, 0, 0, 0, X.av) : chain2(X, Y, f, 0, 1, 0, 0, 0, Y.av); break;
    case POW: {
      if (y_const) {
        LD d1 = y == 0 ? 0 : y * std::pow(x, y - 1);
        LD d2 = (y == 0 || y == 1) ? 0 : y * (y - 1) * std::pow(x, y - 2);
        r = chain2(X, Y, f, d1, 0, d2, 0, 0, fabsl_(f) + fabsl_(d1) * X.av);
      } else {
        LD l = std::log(x);
        r = chain2(X, Y, f, y * std::pow(x, y - 1), f * l, y * (y - 1) * std::pow(x, y - 2),
                   std::pow(x, y - 1) * (1 + y * l), f * l * l, fabsl_(f) * (1 + fabsl_(l) * Y.av + fabsl_(y / x) * X.av));
      }
      break;
    }
    case HYPOT3: {
      // sqrt(x² + y² + z²)
      auto sq = [](const Jet& q) { return chain1(q, q.v * q.v, 2 * q.v, 2, q.v * q.v + 2 * std::abs(q.v) * q.av); };
      Jet s1 = sq(X), s2 = sq(Y), s3 = sq(Z);
      Jet t = chain2(s1, s2, s1.v + s2.v, 1, 1, 0, 0, 0, s1.av + s2.av);
      t = chain2(t, s3, t.v + s3.v, 1, 1, 0, 0, 0, t.av + s3.av);
      r = chain1(t, f, 1 / (2 * f), -1 / (4 * f * t.v), f + t.av / f);
      break;
    }
    default: break;
  }
  r.ok = r.ok && good(op, x, y, z, y_const, all_const, X.av, Y.av, same) && std::abs(f) < 1e3L;
  return r;
}

struct Prog {
  std::vector<Node> nodes;
  std::vector<double> leaf;      // current leaf values
  std::vector<int> leaf_node;

  int add_leaf(double v) {
    nodes.push_back({LEAF, -1, -1, -1, static_cast<double>(leaf.size())});
    leaf.push_back(v);
    leaf_node.push_back(static_cast<int>(nodes.size()) - 1);
    return leaf_node.back();
  }
  int add_const(double v) {
    nodes.push_back({CONST, -1, -1, -1, v});
    return static_cast<int>(nodes.size()) - 1;
  }
  int add(int op, int a, int b = -1, int c = -1) {
    nodes.push_back({op, a, b, c, 0});
    return static_cast<int>(nodes.size()) - 1;
  }
  bool is_const(int i) const {
    auto& n = nodes[i];
    if (n.op == LEAF) return false;
    if (n.op == CONST) return true;
    return is_const(n.a) && (n.b < 0 || is_const(n.b)) && (n.c < 0 || is_const(n.c));
  }
  bool depends(int i, int leaf_idx) const {
    auto& n = nodes[i];
    if (n.op == LEAF) return static_cast<int>(n.k) == leaf_idx;
    if (n.op == CONST) return false;
    return depends(n.a, leaf_idx) || (n.b >= 0 && depends(n.b, leaf_idx)) || (n.c >= 0 && depends(n.c, leaf_idx));
  }
  /// Jets of all nodes with respect to the leaves listed in wrt
  std::vector<Jet> eval(const std::vector<int>& wrt = {}, const std::vector<double>* at = nullptr) const {
    const auto& L = at ? *at : leaf;
    std::vector<Jet> r(nodes.size());
    std::vector<char> cst(nodes.size());
    static const Jet zero{};
    for (size_t i = 0; i < nodes.size(); ++i) {
      auto& n = nodes[i];
      if (n.op == LEAF) {
        r[i].n = static_cast<int>(wrt.size());
        r[i].v = L[static_cast<int>(n.k)];
        r[i].av = std::abs(r[i].v);
        for (size_t j = 0; j < wrt.size(); ++j)
          if (wrt[j] == static_cast<int>(n.k)) r[i].g[j] = r[i].ag[j] = 1;
      } else if (n.op == CONST) {
        cst[i] = 1;
        r[i].n = static_cast<int>(wrt.size());
        r[i].v = n.k;
        r[i].av = std::abs(r[i].v);
      } else {
        cst[i] = cst[n.a] && (n.b < 0 || cst[n.b]) && (n.c < 0 || cst[n.c]);
        r[i] = jet_op(n.op, r[n.a], n.b >= 0 ? r[n.b] : zero, n.c >= 0 ? r[n.c] : zero, n.b >= 0 && cst[n.b], cst[i], n.a == n.b);
        r[i].n = static_cast<int>(wrt.size());
      }
    }
    return r;
  }
  std::string str(int i, int depth = 0) const {
    auto& n = nodes[i];
    if (depth > 14) return "…";
    switch (n.op) {
      case LEAF: return std::format("x{}", static_cast<int>(n.k));
      case CONST: return std::format("{}", n.k);
      default:
        break;
    }
    std::string s = std::string{op_name(n.op)} + "(" + str(n.a, depth + 1);
    if (n.b >= 0) s += ", " + str(n.b, depth + 1);
    if (n.c >= 0) s += ", " + str(n.c, depth + 1);
    return s + ")";
  }
};

inline bool close(double got, LD want, LD mag, LD tol = 1e-9L) {
  if (std::isnan(got)) return false;
  return std::abs(got - want) <= tol * (1 + std::abs(want) + mag);
}

}  // namespace ref
