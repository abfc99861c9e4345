// P01-P06: scalar expressions, folding, derivatives, expression types
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>

#include "gen_expr.hpp"

using ref::Jet;
using ref::LD;

PROPERTY("expr_history", "at least 5 operations, a leaf update after building, and a check of an expression that depends on it") {
  ExprGen g{c};
  int nl = c.range(1, 4);
  for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
  bool updated = false, checked_after = false;
  auto check = [&](int i) {
    auto r = g.p.eval();
    const Jet& j = r[g.hs[i].node];
    if (!j.ok) return;
    double got = g.hs[i].v.value();
    PCHECK(ref::close(got, j.v, j.av, 1e-11L), "value {} expected {} for {}", got, static_cast<double>(j.v), g.p.str(g.hs[i].node));
    if (updated) checked_after = true;
  };
  int steps = c.range(3, 28);
  for (int s = 0; s < steps; ++s) {
    switch (c.weighted({10, 3, 1, 2, 1, 4, 4})) {
      case 0:
        g.hs.push_back(g.step());
        break;
      case 1: {  // compound assignment, possibly with itself
        int i = static_cast<int>(c.draw(g.size()));
        int op = c.range(ref::ADD, ref::DIV);
        int form = c.range(0, 2);
        int j = static_cast<int>(c.draw(g.size()));
        double k = gen_const(c);
        size_t mark = g.p.nodes.size();
        int rhs = form == 0 ? g.hs[j].node : g.p.add_const(k);
        int n = g.p.add(op, g.hs[i].node, rhs);
        if (!g.ok(n)) {
          g.p.nodes.resize(mark);
          break;
        }
        V& a = g.hs[i].v;
        V copy = a;  // the old expression must live on unchanged
        int old = g.hs[i].node;
        auto doit = [&](const auto& b) {
          if (op == ref::ADD) a += b;
          if (op == ref::SUB) a -= b;
          if (op == ref::MUL) a *= b;
          if (op == ref::DIV) a /= b;
        };
        if (form == 0) doit(g.hs[j].v);
        else if (form == 1) doit(V{k});
        else if (k == static_cast<int>(k)) doit(V(static_cast<int>(k)));
        else doit(k);
        g.hs[i].node = n;
        g.hs.push_back({copy, old});
        c.label("compound");
        break;
      }
      case 2: {  // assign scalar
        int i = static_cast<int>(c.draw(g.size()));
        double k = gen_const(c);
        g.hs[i].v = k;
        g.hs[i].node = g.p.add_const(k);
        c.label("assign_scalar");
        break;
      }
      case 3: {  // copy, assign or move handles
        int i = static_cast<int>(c.draw(g.size())), j = static_cast<int>(c.draw(g.size()));
        if (c.coin()) {
          g.hs[i].v = g.hs[j].v;
          g.hs[i].node = g.hs[j].node;
        } else {
          V t = std::move(g.hs[i].v);
          g.hs[i].v = std::move(t);
        }
        break;
      }
      case 4: {  // drop a handle
        if (g.size() > 2) g.hs.erase(g.hs.begin() + c.draw(g.size()));
        break;
      }
      case 5: {  // update some leaves
        for (int i = 0; i < nl; ++i)
          if (c.coin()) g.set_leaf(i, gen_leaf(c));
        updated = true;
        break;
      }
      default:
        check(static_cast<int>(c.draw(g.size())));
    }
  }
  for (int i = 0; i < g.size(); ++i) check(i);
  for (int i = 0; i < nl; ++i) g.set_leaf(i, gen_leaf(c));
  updated = true;
  for (int i = g.size() - 1; i >= 0; --i) check(i);
  for (auto& h : g.hs)
    if (c.is_nontrivial() == false) c.note("{}", g.p.str(h.node));
  c.nontrivial(g.ops_used >= 5 && checked_after);
}

// --- constant folding -----------------------------------------------------------

namespace {
/// Rebuilds a reference program with Sleipnir, constants as given by mk.
template <typename F>
std::vector<V> rebuild(const ref::Prog& p, std::vector<V>& leaves, F&& mk) {
  std::vector<V> r;
  for (auto& n : p.nodes) {
    if (n.op == ref::LEAF) r.push_back(leaves[static_cast<int>(n.k)]);
    else if (n.op == ref::CONST) r.push_back(mk(n.k));
    else if (ref::arity(n.op) == 1) r.push_back(lib_unary(n.op, r[n.a]));
    else if (ref::arity(n.op) == 2) r.push_back(lib_binary(n.op, r[n.a], r[n.b]));
    else r.push_back(slp::hypot(r[n.a], r[n.b], r[n.c]));
  }
  return r;
}
}  // namespace

PROPERTY("fold_constants", "the program has a constant operand that is 0, 1, -1 or an all-constant subexpression") {
  ExprGen g{c};
  int nl = c.range(1, 3);
  for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
  for (int i = 0, n = c.range(0, 3); i < n; ++i) {
    double k = gen_const(c);
    g.hs.push_back({V{k}, g.p.add_const(k)});
  }
  g.grow(c.range(1, 10));
  bool special = false;
  for (size_t i = 0; i < g.p.nodes.size(); ++i) {
    auto& n = g.p.nodes[i];
    if (n.op == ref::CONST && (n.k == 0 || std::abs(n.k) == 1)) special = true;
    if (n.op > ref::CONST && g.p.is_const(static_cast<int>(i))) special = true;
  }
  c.nontrivial(special);
  c.note("{}", g.p.str(g.hs.back().node));
  auto folded = rebuild(g.p, g.leaves, [](double k) { return V{k}; });
  auto unfolded = rebuild(g.p, g.leaves, [](double k) {
    V x;
    x.set_value(k);
    return x;
  });
  std::vector<int> wrt;
  VM w(nl);
  for (int i = 0; i < nl; ++i) {
    wrt.push_back(i);
    w[i] = g.leaves[i];
  }
  for (int round = 0; round < 2; ++round) {
    auto r = g.p.eval(wrt);
    for (size_t i = 0; i < g.p.nodes.size(); ++i) {
      if (!r[i].ok) continue;
      double a = folded[i].value(), b = unfolded[i].value();
      PCHECK(ref::close(a, r[i].v, r[i].av, 1e-11L), "folded value {} expected {} for {}", a, (double)r[i].v, g.p.str(i));
      PCHECK(ref::close(b, r[i].v, r[i].av, 1e-11L), "unfolded value {} expected {} for {}", b, (double)r[i].v, g.p.str(i));
    }
    int root = g.hs.back().node;
    if (r[root].ok) {
      Eigen::VectorXd ga = slp::Gradient<double>(folded[root], w).value().toDense();
      for (int i = 0; i < nl; ++i)
        PCHECK(ref::close(ga[i], r[root].g[i], r[root].ag[i]), "folded d/dx{} = {} expected {} for {}", i, ga[i], (double)r[root].g[i], g.p.str(root));
    }
    for (int i = 0; i < nl; ++i) g.set_leaf(i, gen_leaf(c));
  }
}

// --- derivatives --------------------------------------------------------------------

namespace {
/// Random subset/permutation of the leaves
std::vector<int> gen_wrt(pbt::Case& c, int nl) {
  std::vector<int> w;
  for (int i = 0; i < nl; ++i) w.push_back(i);
  for (int i = nl - 1; i > 0; --i)
    if (c.coin()) std::swap(w[i], w[c.draw(i + 1)]);
  int k = c.range(1, nl);
  if (c.chance(1, 3)) w.resize(k);
  return w;
}
/// New leaf values near the current ones or anywhere
void perturb(ExprGen& g) {
  bool local = g.c.coin();
  for (size_t i = 0; i < g.leaves.size(); ++i)
    g.set_leaf(static_cast<int>(i), local ? g.p.leaf[i] + g.c.grid(-0.05, 0.05) : gen_leaf(g.c));
}
}  // namespace

PROPERTY("gradient", "at least 4 operations and a non-zero expected derivative") {
  ExprGen g{c};
  int nl = c.range(1, 5);
  for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
  g.grow(c.range(1, 16));
  auto wrt = gen_wrt(c, nl);
  V f = g.hs.back().v;
  int root = g.hs.back().node;
  c.note("f = {}", g.p.str(root));
  int m = static_cast<int>(wrt.size());
  VM w(m);
  for (int i = 0; i < m; ++i) w[i] = g.leaves[wrt[i]];
  auto grad = m == 1 && c.coin() ? slp::Gradient<double>(f, g.leaves[wrt[0]]) : slp::Gradient<double>(f, w);
  // Evaluating the symbolic form must not disturb the numeric one, nor the other way
  bool sym_first = c.coin();
  VM sym;
  if (sym_first) sym = grad.get();
  for (int round = 0; round < 4; ++round) {
    if (round) perturb(g);
    auto r = g.p.eval(wrt);
    if (!r[root].ok) continue;
    auto& j = r[root];
    Eigen::VectorXd num = grad.value().toDense();
    PCHECK(num.rows() == m, "gradient has {} rows", num.rows());
    for (int i = 0; i < m; ++i) {
      PCHECK(ref::close(num[i], j.g[i], j.ag[i]), "round {} df/dx{} = {} expected {}", round, wrt[i], num[i], (double)j.g[i]);
      if (g.ops_used >= 4 && std::abs(j.g[i]) > 1e-6L) c.nontrivial();
    }
    if (round >= 1 && !sym_first) {
      sym = grad.get();
      sym_first = true;
    }
    if (sym_first) {
      PCHECK(sym.rows() == m && sym.cols() == 1, "symbolic gradient is {}x{}", sym.rows(), sym.cols());
      for (int i = 0; i < m; ++i) {
        double v = sym[i].value();
        PCHECK(ref::close(v, j.g[i], j.ag[i]), "round {} symbolic df/dx{} = {} expected {}", round, wrt[i], v, (double)j.g[i]);
      }
    }
    double fv = f.value();
    PCHECK(ref::close(fv, j.v, j.av, 1e-11L), "f = {} expected {}", fv, (double)j.v);
  }
}

PROPERTY("jacobian", "at least 2 rows that depend on a variable, one of them nonlinear") {
  ExprGen g{c};
  int nl = c.range(1, 5);
  for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
  g.grow(c.range(1, 14));
  int rows = c.range(1, 5);
  VM F(rows);
  std::vector<int> roots;
  for (int i = 0; i < rows; ++i) {
    switch (c.weighted({6, 2, 1, 1})) {
      case 0: {
        int k = c.coin() ? g.size() - 1 - static_cast<int>(c.draw(std::min(4, g.size()))) : static_cast<int>(c.draw(g.size()));
        F[i] = g.hs[k].v;
        roots.push_back(g.hs[k].node);
        break;
      }
      case 1: {  // affine row
        double k = gen_const(c), b = gen_const(c);
        int l = static_cast<int>(c.draw(nl)), l2 = static_cast<int>(c.draw(nl));
        F[i] = g.leaves[l] * k + g.leaves[l2] - b;
        int n = g.p.add(ref::MUL, g.p.leaf_node[l], g.p.add_const(k));
        n = g.p.add(ref::ADD, n, g.p.leaf_node[l2]);
        roots.push_back(g.p.add(ref::SUB, n, g.p.add_const(b)));
        break;
      }
      case 2: {  // constant row
        double k = gen_const(c);
        F[i] = V{k};
        roots.push_back(g.p.add_const(k));
        break;
      }
      default: {  // a bare leaf
        int l = static_cast<int>(c.draw(nl));
        F[i] = g.leaves[l];
        roots.push_back(g.p.leaf_node[l]);
      }
    }
    c.note("F[{}] = {}", i, g.p.str(roots.back()));
  }
  auto wrt = gen_wrt(c, nl);
  int m = static_cast<int>(wrt.size());
  VM w(m);
  for (int i = 0; i < m; ++i) w[i] = g.leaves[wrt[i]];
  auto jac = slp::Jacobian<double>(F, w);
  VM sym;
  bool have = c.coin();
  if (have) sym = jac.get();
  int dep_rows = 0, nl_rows = 0;
  for (int i = 0; i < rows; ++i) {
    bool d = false;
    for (int l : wrt) d |= g.p.depends(roots[i], l);
    dep_rows += d;
    nl_rows += d && F[i].type() >= slp::ExpressionType::QUADRATIC;
  }
  c.nontrivial(dep_rows >= 2 && nl_rows >= 1);
  for (int round = 0; round < 4; ++round) {
    if (round) perturb(g);
    auto r = g.p.eval(wrt);
    bool all_ok = true;
    for (int i = 0; i < rows; ++i) all_ok &= r[roots[i]].ok;
    Eigen::MatrixXd num = jac.value().toDense();
    if (!all_ok) continue;
    PCHECK(num.rows() == rows && num.cols() == m, "Jacobian is {}x{}", num.rows(), num.cols());
    if (round >= 1 && !have) {
      sym = jac.get();
      have = true;
    }
    for (int i = 0; i < rows; ++i) {
      auto& j = r[roots[i]];
      for (int k = 0; k < m; ++k) {
        PCHECK(ref::close(num(i, k), j.g[k], j.ag[k]), "round {} dF{}/dx{} = {} expected {}", round, i, wrt[k], num(i, k), (double)j.g[k]);
        if (have) {
          double v = sym[i, k].value();
          PCHECK(ref::close(v, j.g[k], j.ag[k]), "round {} symbolic dF{}/dx{} = {} expected {}", round, i, wrt[k], v, (double)j.g[k]);
        }
      }
      double fv = F[i].value();
      PCHECK(ref::close(fv, j.v, j.av, 1e-11L), "F[{}] = {} expected {}", i, fv, (double)j.v);
    }
  }
}

PROPERTY("hessian", "at least 4 operations and a non-zero expected second derivative") {
  ExprGen g{c};
  int nl = c.range(1, 5);
  for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
  g.grow(c.range(1, 12));
  auto wrt = gen_wrt(c, nl);
  V f = g.hs.back().v;
  int root = g.hs.back().node;
  c.note("f = {}", g.p.str(root));
  int m = static_cast<int>(wrt.size());
  VM w(m);
  for (int i = 0; i < m; ++i) w[i] = g.leaves[wrt[i]];
  auto full = slp::Hessian<double>(f, w);
  auto lower = slp::Hessian<double, Eigen::Lower>(f, w);
  VM sym;
  bool have = c.coin();
  if (have) sym = full.get();
  for (int round = 0; round < 3; ++round) {
    if (round) perturb(g);
    auto r = g.p.eval(wrt);
    auto& j = r[root];
    Eigen::MatrixXd H = full.value().toDense();
    Eigen::MatrixXd L = lower.value().toDense();
    if (!j.ok) continue;
    PCHECK(H.rows() == m && H.cols() == m && L.rows() == m && L.cols() == m, "shape");
    if (round >= 1 && !have) {
      sym = full.get();
      have = true;
    }
    for (int a = 0; a < m; ++a)
      for (int b = 0; b < m; ++b) {
        LD want = j.h[a][b], mag = j.ah[a][b];
        PCHECK(ref::close(H(a, b), want, mag, 1e-8L), "round {} d2f/dx{}dx{} = {} expected {}", round, wrt[a], wrt[b], H(a, b), (double)want);
        PCHECK(ref::close(L(a, b), b <= a ? want : 0, mag, 1e-8L), "round {} lower d2f/dx{}dx{} = {} expected {}", round, wrt[a], wrt[b], L(a, b), b <= a ? (double)want : 0.0);
        if (have) {
          double v = sym[a, b].value();
          PCHECK(ref::close(v, want, mag, 1e-8L), "round {} symbolic d2f/dx{}dx{} = {} expected {}", round, wrt[a], wrt[b], v, (double)want);
        }
        if (g.ops_used >= 4 && std::abs(want) > 1e-6L) c.nontrivial();
      }
  }
}

// --- single operations over the whole range of their operands ------------------------

namespace {
/// A double of any magnitude up to 2^±span
double gen_wide(pbt::Case& c, int span) {
  static const double special[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 1e-8, -1e-8, 1e8, 0.75, 1 - 1e-3, 700, -700, 40, 1e-300, 1e300, 1.5};
  if (c.chance(1, 4)) {
    double v = c.pick(special);
    return std::abs(v) < std::ldexp(1.0, -span) || std::abs(v) > std::ldexp(1.0, span) ? 0.0 : v;
  }
  double m = c.real(1, 2);
  return (c.coin() ? m : -m) * std::ldexp(1.0, c.coin() ? c.range(-4, 4) : c.range(-span, span - 1));
}
double std_op(int op, double x, double y, double z) {
  switch (op) {
    case ref::ABS: return std::abs(x);
    case ref::ACOS: return std::acos(x);
    case ref::ASIN: return std::asin(x);
    case ref::ATAN: return std::atan(x);
    case ref::CBRT: return std::cbrt(x);
    case ref::COS: return std::cos(x);
    case ref::COSH: return std::cosh(x);
    case ref::ERF: return std::erf(x);
    case ref::EXP: return std::exp(x);
    case ref::LOG: return std::log(x);
    case ref::LOG10: return std::log10(x);
    case ref::SIN: return std::sin(x);
    case ref::SINH: return std::sinh(x);
    case ref::SQRT: return std::sqrt(x);
    case ref::TAN: return std::tan(x);
    case ref::TANH: return std::tanh(x);
    case ref::DIV: return x / y;
    case ref::ATAN2: return std::atan2(x, y);
    case ref::HYPOT: return std::hypot(x, y);
    case ref::POW: return std::pow(x, y);
    default: return static_cast<double>(ref::eval_op(op, x, y, z));
  }
}
}  // namespace

PROPERTY("wide_values", "an operand is beyond 2^±10, or the value is not finite") {
  int op = c.range(ref::NEG, ref::HYPOT3);
  int span = op == ref::HYPOT3 ? 300 : 1000;
  double k[3] = {gen_wide(c, span), gen_wide(c, span), gen_wide(c, span)};
  int ar = ref::arity(op);
  if (ar > 1 && c.chance(1, 5)) k[1] = k[0];
  if (ar > 1 && c.chance(1, 8)) k[1] = -k[0];
  if (op == ref::POW && c.coin()) k[1] = c.range(-6, 6) / 2.0;
  LD want = ref::eval_op(op, k[0], k[1], k[2]);
  double dwant = std_op(op, k[0], k[1], k[2]);
  c.label(ref::op_name(op));
  c.note("{}({:.17g}, {:.17g}, {:.17g}) = {:.17g}", ref::op_name(op), k[0], k[1], k[2], dwant);
  bool wide = !std::isfinite(dwant);
  for (int i = 0; i < ar; ++i) wide |= k[i] != 0 && (std::abs(k[i]) > 1024 || std::abs(k[i]) < 1.0 / 1024);
  c.nontrivial(wide);
  // Which operands are constants (all of them, or none, or some)
  int mask = c.range(0, (1 << ar) - 1);
  std::vector<V> v(3);
  for (int i = 0; i < ar; ++i) {
    if (mask >> i & 1) v[i] = k[i];
    else if (c.coin()) v[i].set_value(k[i]);
  }
  V f = ar == 1 ? lib_unary(op, v[0]) : ar == 2 ? lib_binary(op, v[0], v[1]) : slp::hypot(v[0], v[1], v[2]);
  for (int i = 0; i < ar; ++i)
    if (!(mask >> i & 1)) v[i].set_value(k[i]);
  double got = f.value();
  if (!std::isfinite(dwant)) {
    if (mask) throw pbt::Discard{};  // simplifications need only agree where the formula is finite
    PCHECK(std::isnan(dwant) ? std::isnan(got) : got == dwant, "{:.17g} instead of {:.17g}", got, dwant);
    return;
  }
  if ((op == ref::LOG || op == ref::LOG10 || op == ref::POW) && (mask & 1) && k[0] == 0) throw pbt::Discard{};
  if (op == ref::POW && k[0] == 0) throw pbt::Discard{};
  PCHECK(std::abs(got - want) <= 1e-13L * std::abs(want) + 1e-300L, "{:.17g} instead of {:.17g}", got, static_cast<double>(want));
}

PROPERTY("wide_derivatives", "an operand is beyond 2^±10") {
  int op = c.range(ref::NEG, ref::HYPOT3);
  double k[3] = {gen_wide(c, 60), gen_wide(c, 60), gen_wide(c, 60)};
  int ar = ref::arity(op);
  bool wide = false;
  if (op == ref::POW) {
    k[0] = std::abs(c.coin() ? gen_wide(c, 20) : c.real(0.1, 10));
    k[1] = c.coin() ? c.range(-8, 8) / 2.0 : c.real(-12, 12);
  }
  LD x = k[0], y = k[1], f = ref::eval_op(op, k[0], k[1], k[2]), d[3] = {0, 0, 0};
  bool ok = std::isfinite(f);
  switch (op) {
    case ref::NEG: d[0] = -1; break;
    case ref::POS: d[0] = 1; break;
    case ref::ABS: d[0] = x < 0 ? -1 : 1; ok &= x != 0; break;
    case ref::ACOS: d[0] = -1 / std::sqrt(1 - x * x); ok &= std::abs(x) < 0.999L; break;
    case ref::ASIN: d[0] = 1 / std::sqrt(1 - x * x); ok &= std::abs(x) < 0.999L; break;
    case ref::ATAN: d[0] = 1 / (1 + x * x); break;
    case ref::CBRT: d[0] = 1 / (3 * f * f); ok &= x != 0; break;
    case ref::COS: d[0] = -std::sin(x); break;
    case ref::COSH: d[0] = std::sinh(x); ok &= std::abs(x) < 300; break;
    case ref::ERF: d[0] = 2 / std::sqrt(3.14159265358979323846264338327950288L) * std::exp(-x * x); ok &= std::abs(x) < 20; break;
    case ref::EXP: d[0] = f; ok &= std::abs(x) < 300; break;
    case ref::LOG: d[0] = 1 / x; ok &= x > 0; break;
    case ref::LOG10: d[0] = 1 / (x * std::log(10.0L)); ok &= x > 0; break;
    case ref::SIGN: d[0] = 0; break;
    case ref::SIN: d[0] = std::cos(x); break;
    case ref::SINH: d[0] = std::cosh(x); ok &= std::abs(x) < 300; break;
    case ref::SQRT: d[0] = 1 / (2 * f); ok &= x > 0; break;
    case ref::TAN: d[0] = 1 / (std::cos(x) * std::cos(x)); break;
    case ref::TANH: d[0] = 1 / (std::cosh(x) * std::cosh(x)); ok &= std::abs(x) < 300; break;
    case ref::ADD: d[0] = d[1] = 1; break;
    case ref::SUB: d[0] = 1, d[1] = -1; break;
    case ref::MUL: d[0] = y, d[1] = x; break;
    case ref::DIV: d[0] = 1 / y, d[1] = -x / (y * y); ok &= y != 0; break;
    case ref::ATAN2: d[0] = y / (x * x + y * y), d[1] = -x / (x * x + y * y); ok &= x != 0 || y != 0; break;
    case ref::HYPOT: d[0] = x / f, d[1] = y / f; ok &= f != 0; break;
    case ref::MAX: d[0] = x > y, d[1] = x < y; ok &= x != y; break;
    case ref::MIN: d[0] = x < y, d[1] = x > y; ok &= x != y; break;
    case ref::POW: d[0] = y * std::pow(x, y - 1), d[1] = f * std::log(x); ok &= x > 0; break;
    case ref::HYPOT3: d[0] = x / f, d[1] = y / f, d[2] = k[2] / f; ok &= f != 0; break;
  }
  if (!ok) throw pbt::Discard{};
  for (int i = 0; i < ar; ++i) wide |= std::abs(k[i]) > 1024 || std::abs(k[i]) < 1.0 / 1024;
  c.nontrivial(wide);
  c.label(ref::op_name(op));
  c.note("{}({:.17g}, {:.17g}, {:.17g})", ref::op_name(op), k[0], k[1], k[2]);
  VM w(ar, 1);
  std::vector<V> v(3);
  for (int i = 0; i < ar; ++i) w[i] = v[i];
  V e = ar == 1 ? lib_unary(op, v[0]) : ar == 2 ? lib_binary(op, v[0], v[1]) : slp::hypot(v[0], v[1], v[2]);
  slp::Gradient grad{e, w};
  VM sym = grad.get();
  for (int i = 0; i < ar; ++i) v[i].set_value(k[i]);
  Eigen::VectorXd num = grad.value().toDense();
  for (int i = 0; i < ar; ++i) {
    LD tol = 1e-12L * std::abs(d[i]) * (op == ref::ERF ? 1 + x * x : 1) + (op == ref::TANH || op == ref::ERF || op == ref::SIN || op == ref::COS ? 1e-15L : 1e-40L);
    PCHECK(std::abs(num[i] - d[i]) <= tol, "derivative {} is {:.17g} instead of {:.17g}", i, num[i], static_cast<double>(d[i]));
    double s = sym[i].value();
    PCHECK(std::abs(s - d[i]) <= tol, "symbolic derivative {} is {:.17g} instead of {:.17g}", i, s, static_cast<double>(d[i]));
  }
}

PROPERTY("kinks", "max, min or abs is evaluated exactly at its kink") {
  // Integer arithmetic, so that everything is exact and ties really are ties
  int nl = c.range(1, 3);
  std::vector<V> x(nl);
  std::vector<int> lv(nl);
  auto set = [&] {
    for (int i = 0; i < nl; ++i) x[i].set_value(lv[i] = c.range(-2, 2));
  };
  set();
  struct N {
    V v;
    int op, a, b, k;
  };
  std::vector<N> ns;
  for (int i = 0; i < nl; ++i) ns.push_back({x[i], ref::LEAF, i, 0, 0});
  static const int ops[] = {ref::MAX, ref::MIN, ref::ABS, ref::ADD, ref::SUB, ref::NEG, ref::MUL, ref::SIGN};
  for (int s = c.range(1, 8); s > 0; --s) {
    if (c.chance(1, 6)) {
      int k = c.range(-2, 2);
      ns.push_back({V{k}, ref::CONST, 0, 0, k});
      continue;
    }
    int op = c.pick(ops), n = static_cast<int>(ns.size());
    int a = n - 1 - static_cast<int>(c.draw(std::min(n, 4))), b = static_cast<int>(c.draw(n));
    ns.push_back({ref::arity(op) == 1 ? lib_unary(op, ns[a].v) : lib_binary(op, ns[a].v, ns[b].v), op, a, b, 0});
  }
  std::string text;
  for (auto& n : ns) text += n.op == ref::LEAF ? std::format(" x{}", n.a) : n.op == ref::CONST ? std::format(" {}", n.k) : std::format(" {}({},{})", ref::op_name(n.op), n.a, n.b);
  c.note("{}", text);
  V f = ns.back().v;
  VM w(nl);
  for (int i = 0; i < nl; ++i) w[i] = x[i];
  slp::Gradient grad{f, w};
  slp::Hessian<double> hes{f, w};
  VM sg = grad.get(), sh = hes.get();
  for (int round = 0; round < 3; ++round) {
    if (round) set();
    std::vector<LD> v;
    bool tie = false;
    for (auto& n : ns) {
      v.push_back(n.op == ref::LEAF ? lv[n.a] : n.op == ref::CONST ? n.k : ref::eval_op(n.op, v[n.a], v[n.b], 0));
      if ((n.op == ref::MAX || n.op == ref::MIN) && v[n.a] == v[n.b] && n.a != n.b) tie = true;
      if (n.op == ref::ABS && v[n.a] == 0) tie = true;
      if (std::abs(v.back()) > 1e9L) throw pbt::Discard{};
    }
    c.nontrivial(tie);
    double got = f.value();
    PCHECK(got == static_cast<double>(v.back()), "value {} instead of {}", got, static_cast<double>(v.back()));
    Eigen::VectorXd g = grad.value().toDense();
    Eigen::MatrixXd H = hes.value().toDense();
    for (int i = 0; i < nl; ++i) {
      double s = sg[i].value();
      PCHECK(g[i] == s, "at x ={} the gradient's element {} is {} evaluated and {} symbolic", std::format(" {} {} {}", lv[0], nl > 1 ? lv[1] : 0, nl > 2 ? lv[2] : 0), i, g[i], s);
      for (int j = 0; j < nl; ++j) {
        double t = sh[i, j].value();
        PCHECK(H(i, j) == t, "at a kink the Hessian's element {}, {} is {} evaluated and {} symbolic", i, j, H(i, j), t);
        (void)t;
      }
    }
  }
}

// --- expression types -----------------------------------------------------------------

PROPERTY("types_sound", "the root is reported as constant, linear or quadratic while it was built from at least 3 operations") {
  ExprGen g{c};
  int nl = c.range(1, 4);
  for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
  int steps = c.range(1, 12);
  bool poly_bias = c.chance(3, 4);
  for (int s = 0; s < steps; ++s) {
    if (poly_bias && c.chance(4, 5)) {
      static const int ops[] = {ref::ADD, ref::SUB, ref::MUL, ref::NEG, ref::DIV, ref::POW, ref::POS};
      int op = c.pick(ops);
      int ia = c.chance(1, 5) ? -1 : static_cast<int>(c.draw(g.size()));
      int ib = c.chance(1, 3) || op == ref::DIV || op == ref::POW ? -1 : static_cast<int>(c.draw(g.size()));
      double ka = gen_const(c), kb = op == ref::POW ? c.range(0, 3) : gen_const(c);
      if (op == ref::DIV && kb == 0) kb = 2;
      if (op == ref::POW && ia < 0 && ka == 0) ka = 1;
      size_t mark = g.p.nodes.size();
      Handle h = g.make(op, ia, ka, ib, kb, -1, 0);
      if (!g.ok(h.node)) {
        g.p.nodes.resize(mark);
        continue;
      }
      ++g.ops_used;
      g.hs.push_back(h);
    } else {
      g.hs.push_back(g.step());
    }
  }
  using enum slp::ExpressionType;
  for (int i = 0; i < g.size(); ++i) {
    auto t = g.hs[i].v.type();
    int root = g.hs[i].node;
    c.label(std::format("type{}", static_cast<int>(t)));
    PCHECK(t >= CONSTANT && t <= NONLINEAR, "type {} for {}", static_cast<int>(t), g.p.str(root));
    if (t == NONLINEAR) continue;
    if (i == g.size() - 1) {
      c.note("type {} {}", static_cast<int>(t), g.p.str(root));
      c.nontrivial(g.ops_used >= 3);
    }
    std::vector<int> wrt;
    for (int k = 0; k < nl; ++k) wrt.push_back(k);
    // Derivatives of order degree+1 vanish; second derivatives are the same everywhere
    std::vector<Jet> at;
    for (int q = 0; q < 4; ++q) {
      std::vector<double> x(nl);
      for (int k = 0; k < nl; ++k) x[k] = q == 0 ? g.p.leaf[k] : gen_leaf(c);
      auto r = g.p.eval(wrt, &x);
      if (r[root].ok) at.push_back(r[root]);
    }
    for (auto& j : at) {
      for (int a = 0; a < nl; ++a) {
        if (t == CONSTANT) PCHECK(std::abs(j.g[a]) <= 1e-9L * (1 + j.ag[a]), "constant but d/dx{} = {}: {}", a, (double)j.g[a], g.p.str(root));
        for (int b = 0; b < nl; ++b) {
          if (t <= LINEAR) PCHECK(std::abs(j.h[a][b]) <= 1e-9L * (1 + j.ah[a][b]), "type {} but d2/dx{}dx{} = {}: {}", static_cast<int>(t), a, b, (double)j.h[a][b], g.p.str(root));
          else PCHECK(std::abs(j.h[a][b] - at[0].h[a][b]) <= 1e-9L * (1 + j.ah[a][b] + at[0].ah[a][b]), "quadratic but d2/dx{}dx{} varies: {}", a, b, g.p.str(root));
        }
      }
    }
  }
}

PROPERTY("types_exact", "a polynomial of true degree 1 or 2 with at least 3 terms") {
  // Sum of terms k, k x, k x y, x x, (affine)(affine), pow(affine, 2) with distinct monomials so nothing cancels
  int nl = c.range(1, 4);
  std::vector<V> x(nl);
  V f = 0.0;
  int deg = 0, terms = c.range(1, 6);
  std::string s;
  bool first = true;
  for (int t = 0; t < terms; ++t) {
    double k = c.num(4);
    if (k == 0) k = 2;
    V term;
    int d;
    auto affine = [&] {
      double b = c.num(3);
      int i = static_cast<int>(c.draw(nl));
      return c.coin() ? V{x[i] + b} : V{b - x[i]};
    };
    switch (c.range(0, 6)) {
      case 0: term = V{k}; d = 0; s += std::format(" + {}", k); break;
      case 1: term = k * x[c.draw(nl)]; d = 1; s += " + k x"; break;
      case 2: term = x[c.draw(nl)] / k; d = 1; s += " + x / k"; break;
      case 3: term = k * (x[c.draw(nl)] * x[c.draw(nl)]); d = 2; s += " + k x y"; break;
      case 4: term = affine() * affine() / k; d = 2; s += " + a a / k"; break;
      case 5: term = slp::pow(affine(), 2) * k; d = 2; s += " + a^2 k"; break;
      default: term = -(x[c.draw(nl)] * k); d = 1; s += " - x k"; break;
    }
    deg = std::max(deg, d);
    bool minus = c.coin();
    if (first) f = minus ? V{-term} : term;
    else if (minus) f -= term;
    else f += term;
    first = false;
  }
  c.note("f ={} (degree {})", s, deg);
  c.nontrivial(deg >= 1 && terms >= 3);
  auto want = deg == 0 ? slp::ExpressionType::CONSTANT : deg == 1 ? slp::ExpressionType::LINEAR : slp::ExpressionType::QUADRATIC;
  PCHECK(f.type() == want, "type {} expected {} for{}", static_cast<int>(f.type()), static_cast<int>(want), s);
}
