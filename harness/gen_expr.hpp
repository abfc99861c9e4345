// Generator of random expressions, built at the same time with Sleipnir and with
// the reference program.
#pragma once

#include <memory>
#include <vector>

#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

#include "refexpr.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

struct Handle {
  V v;
  int node;
};

inline V lib_unary(int op, const V& a) {
  switch (op) {
    case ref::NEG: return -a;
    case ref::POS: return +a;
    case ref::ABS: return slp::abs(a);
    case ref::ACOS: return slp::acos(a);
    case ref::ASIN: return slp::asin(a);
    case ref::ATAN: return slp::atan(a);
    case ref::CBRT: return slp::cbrt(a);
    case ref::COS: return slp::cos(a);
    case ref::COSH: return slp::cosh(a);
    case ref::ERF: return slp::erf(a);
    case ref::EXP: return slp::exp(a);
    case ref::LOG: return slp::log(a);
    case ref::LOG10: return slp::log10(a);
    case ref::SIGN: return slp::sign(a);
    case ref::SIN: return slp::sin(a);
    case ref::SINH: return slp::sinh(a);
    case ref::SQRT: return slp::sqrt(a);
    case ref::TAN: return slp::tan(a);
    case ref::TANH: return slp::tanh(a);
  }
  return a;
}

template <typename A, typename B>
V lib_binary(int op, const A& a, const B& b) {
  switch (op) {
    case ref::ADD: return a + b;
    case ref::SUB: return a - b;
    case ref::MUL: return a * b;
    case ref::DIV: return a / b;
    case ref::ATAN2: return slp::atan2(a, b);
    case ref::HYPOT: return slp::hypot(a, b);
    case ref::MAX: return slp::max(a, b);
    case ref::MIN: return slp::min(a, b);
    case ref::POW: return slp::pow(a, b);
  }
  return V{0.0};
}

/// Generates constants; zero, one and small integers are frequent
inline double gen_const(pbt::Case& c) {
  static const double special[] = {0, 1, -1, 2, 0.5, 3, -2, 4};
  if (c.chance(3, 5)) return c.pick(special);
  return c.num(4);
}
inline double gen_leaf(pbt::Case& c) {
  return c.chance(1, 4) ? c.num(3) : c.real(-2.5, 2.5);
}

struct ExprGen {
  pbt::Case& c;
  ref::Prog p;
  std::vector<V> leaves;
  std::vector<Handle> hs;
  /// Treat constants as decision variables (their values are never changed)
  bool unfold = false;
  bool smooth = true;  // only C² operations away from kinks
  int ops_used = 0;

  explicit ExprGen(pbt::Case& cc) : c{cc} {}

  void add_leaf(double v) {
    V x;
    x.set_value(v);
    leaves.push_back(x);
    hs.push_back({x, p.add_leaf(v)});
  }
  void set_leaf(int i, double v) {
    leaves[i].set_value(v);
    p.leaf[i] = v;
  }
  int size() const { return static_cast<int>(hs.size()); }

  static int gen_op(pbt::Case& c) {
    switch (c.weighted({5, 4, 1})) {
      case 0: {
        static const int common[] = {ref::ADD, ref::MUL, ref::SUB, ref::DIV};
        return c.pick(common);
      }
      case 1:
        return c.range(ref::NEG, ref::POW);
      default:
        return c.coin() ? ref::HYPOT3 : ref::POW;
    }
  }

  /// Applies op to operands, with constants in whatever form the API accepts.
  /// ia/ib < 0 mean "constant".
  Handle make(int op, int ia, double ka, int ib, double kb, int ic, double kc) {
    int na = ia >= 0 ? hs[ia].node : p.add_const(ka);
    if (ref::arity(op) == 1) {
      V a = ia >= 0 ? hs[ia].v : V{ka};
      return {lib_unary(op, a), p.add(op, na)};
    }
    int nb = ib >= 0 ? hs[ib].node : p.add_const(kb);
    if (ref::arity(op) == 3) {
      int nc = ic >= 0 ? hs[ic].node : p.add_const(kc);
      V a = ia >= 0 ? hs[ia].v : V{ka}, b = ib >= 0 ? hs[ib].v : V{kb}, d = ic >= 0 ? hs[ic].v : V{kc};
      return {slp::hypot(a, b, d), p.add(op, na, nb, nc)};
    }
    int n = p.add(op, na, nb);
    if (ia >= 0 && ib >= 0) return {lib_binary(op, hs[ia].v, hs[ib].v), n};
    int form = c.range(0, 2);  // 0: Variable constant, 1: double, 2: int if integral
    if (ia >= 0) {
      if (form == 0) return {lib_binary(op, hs[ia].v, V{kb}), n};
      if (form == 2 && kb == static_cast<int>(kb)) return {lib_binary(op, hs[ia].v, static_cast<int>(kb)), n};
      return {lib_binary(op, hs[ia].v, kb), n};
    }
    if (ib >= 0) {
      if (form == 0) return {lib_binary(op, V{ka}, hs[ib].v), n};
      if (form == 2 && ka == static_cast<int>(ka)) return {lib_binary(op, static_cast<int>(ka), hs[ib].v), n};
      return {lib_binary(op, ka, hs[ib].v), n};
    }
    return {lib_binary(op, V{ka}, V{kb}), n};
  }

  bool ok(int node) {
    auto r = p.eval();
    return r[node].ok;
  }

  /// Draws one more expression from existing handles; always inside the domain
  Handle step() {
    int op = gen_op(c);
    int ar = ref::arity(op);
    auto pick_operand = [&](int& idx, double& k) {
      if (c.chance(1, 4)) {
        idx = -1;
        k = gen_const(c);
      } else {
        // prefer recent handles, for depth
        int n = size();
        idx = c.coin() ? n - 1 - static_cast<int>(c.draw(std::min(n, 4))) : static_cast<int>(c.draw(n));
        k = 0;
      }
    };
    int ia, ib = -1, ic = -1;
    double ka, kb = 0, kc = 0;
    pick_operand(ia, ka);
    if (ar >= 2) pick_operand(ib, kb);
    if (ar >= 3) pick_operand(ic, kc);
    size_t mark = p.nodes.size();
    Handle h = make(op, ia, ka, ib, kb, ic, kc);
    if (!ok(h.node)) {
      // Fall back to an operation that keeps values small and is smooth everywhere
      p.nodes.resize(mark);
      int f = static_cast<int>(c.draw(3));
      op = f == 0 ? ref::TANH : f == 1 ? ref::ATAN : ref::ERF;
      h = make(op, ia >= 0 ? ia : ib >= 0 ? ib : ic >= 0 ? ic : 0, 0, -1, 0, -1, 0);
    }
    c.label(ref::op_name(op));
    ++ops_used;
    return h;
  }

  void grow(int n) {
    for (int i = 0; i < n; ++i) hs.push_back(step());
  }
};
