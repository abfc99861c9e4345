// Numeric model of an optimisation problem, independent of Sleipnir: every
// function is a weighted sum of one-dimensional functions of affine forms,
// bilinear terms and a linear part. It is evaluated here in long double with
// first and second derivatives, and can be handed to Sleipnir in many
// syntactic forms.
#pragma once

#include <Eigen/Dense>

#include <sleipnir/optimization/problem.hpp>

#include "pbt.hpp"

namespace model {

using LD = long double;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using pbt::Case;

enum Phi { SQ, QUART, EXP, HYP, SIN, LOGCOSH, LOG, SQRT, NUM_PHI };

struct Term {
  Phi phi;
  double w;
  Vec a;  // u = a·x + b
  double b;
};
struct Bilinear {
  double w;
  int i, j;
};

/// Σ w φ(a·x + b) + Σ w x_i x_j + l·x + k
struct Fn {
  int n = 0;
  std::vector<Term> terms;
  std::vector<Bilinear> bil;
  Vec l;
  double k = 0;

  explicit Fn(int n = 0) : n{n}, l{Vec::Zero(n)} {}

  static void phi(Phi p, LD u, LD& f, LD& f1, LD& f2) {
    switch (p) {
      case SQ: f = u * u; f1 = 2 * u; f2 = 2; return;
      case QUART: f = u * u * u * u; f1 = 4 * u * u * u; f2 = 12 * u * u; return;
      case EXP: f = f1 = f2 = std::exp(u); return;
      case HYP: f = std::sqrt(1 + u * u); f1 = u / f; f2 = 1 / (f * f * f); return;
      case SIN: f = std::sin(u); f1 = std::cos(u); f2 = -f; return;
      case LOGCOSH: f = std::log(std::cosh(u)); f1 = std::tanh(u); f2 = 1 - f1 * f1; return;
      case LOG: f = std::log(u); f1 = 1 / u; f2 = -1 / (u * u); return;
      case SQRT: f = std::sqrt(u); f1 = 1 / (2 * f); f2 = -1 / (4 * f * u); return;
      default: f = f1 = f2 = 0;
    }
  }
  LD value(const LVec& x, LD* mag = nullptr) const {
    LD v = k, m = std::abs(k), f, f1, f2;
    for (auto& t : terms) {
      LD u = t.a.cast<LD>().dot(x) + t.b;
      phi(t.phi, u, f, f1, f2);
      v += t.w * f;
      m += std::abs(t.w * f) + std::abs(t.w * f1) * (std::abs(t.b) + t.a.cast<LD>().cwiseAbs().dot(x.cwiseAbs()));
    }
    for (auto& b : bil) v += b.w * x[b.i] * x[b.j], m += std::abs(b.w * x[b.i] * x[b.j]);
    v += l.cast<LD>().dot(x);
    m += l.cast<LD>().cwiseAbs().dot(x.cwiseAbs());
    if (mag) *mag = m;
    return v;
  }
  LVec grad(const LVec& x) const {
    LVec g = l.cast<LD>();
    LD f, f1, f2;
    for (auto& t : terms) {
      LD u = t.a.cast<LD>().dot(x) + t.b;
      phi(t.phi, u, f, f1, f2);
      g += static_cast<LD>(t.w) * f1 * t.a.cast<LD>();
    }
    for (auto& b : bil) {
      g[b.i] += b.w * x[b.j];
      g[b.j] += b.w * x[b.i];
    }
    return g;
  }
  LMat hess(const LVec& x) const {
    LMat h = LMat::Zero(n, n);
    LD f, f1, f2;
    for (auto& t : terms) {
      LD u = t.a.cast<LD>().dot(x) + t.b;
      phi(t.phi, u, f, f1, f2);
      h += (static_cast<LD>(t.w) * f2) * t.a.cast<LD>() * t.a.cast<LD>().transpose();
    }
    for (auto& b : bil) {
      h(b.i, b.j) += b.w;
      h(b.j, b.i) += b.w;
    }
    return h;
  }
  bool linear() const { return terms.empty() && bil.empty(); }
  std::string str() const {
    static const char* names[] = {"sq", "quart", "exp", "hyp", "sin", "logcosh", "log", "sqrt"};
    std::string s;
    auto aff = [](const Vec& a, double b) {
      std::string r;
      for (int i = 0; i < a.size(); ++i)
        if (a[i] != 0) r += std::format("{:+.17g} x{} ", a[i], i);
      if (b != 0 || r.empty()) r += std::format("{:+.17g}", b);
      return r;
    };
    for (auto& t : terms) s += std::format("{:+.17g} {}({}) ", t.w, names[t.phi], aff(t.a, t.b));
    for (auto& b : bil) s += std::format("{:+.17g} x{} x{} ", b.w, b.i, b.j);
    return s + aff(l, k);
  }
};

/// How an affine form or a function is spelled in Sleipnir
struct Speller {
  Case& c;
  const std::vector<V>& x;
  /// Parameters made so far (with their values); empty if none are wanted
  std::vector<std::pair<V, double>>* params = nullptr;
  bool plain = false;  // always the same spelling

  V coef(double w) {
    if (params && c.chance(1, 6)) {
      V p;
      p.set_value(w);
      params->push_back({p, w});
      return p;
    }
    return V{w};
  }
  V affine(const Vec& a, double b) {
    int form = plain ? 0 : c.weighted({5, 2, 1});
    int n = static_cast<int>(x.size());
    if (form == 1) {
      // row vector times column vector
      VM X(n, 1);
      for (int i = 0; i < n; ++i) X[i] = x[i];
      Mat row = a.transpose();
      VM r = row * X;
      V v = r[0];
      return b == 0 ? v : v + b;
    }
    V s{0.0};
    bool any = false;
    for (int i = 0; i < n; ++i) {
      if (a[i] == 0) continue;
      V t = form == 2 ? x[i] * coef(a[i]) : params ? coef(a[i]) * x[i] : a[i] * x[i];
      s = any ? s + t : t;
      any = true;
    }
    if (b != 0 || !any) s = params ? s + coef(b) : s + b;
    return s;
  }
  V phi(Phi p, const V& u) {
    bool alt = !plain && c.coin();
    switch (p) {
      case SQ: return alt ? slp::pow(u, 2) : u * u;
      case QUART: return alt ? slp::pow(u, 4) : (u * u) * (u * u);
      case EXP: return slp::exp(u);
      case HYP: return alt ? slp::hypot(V{1.0}, u) : slp::sqrt(1.0 + u * u);
      case SIN: return slp::sin(u);
      case LOGCOSH: return slp::log(slp::cosh(u));
      case LOG: return slp::log(u);
      case SQRT: return slp::sqrt(u);
      default: return u;
    }
  }
  V fn(const Fn& f) {
    V s = affine(f.l, f.k);
    for (auto& t : f.terms) {
      V e = phi(t.phi, affine(t.a, t.b));
      s = s + (params ? coef(t.w) * e : t.w * e);
    }
    for (auto& b : f.bil) s = s + (b.w * x[b.i]) * x[b.j];
    return s;
  }
};

/// min f(x) subject to eq(x) = 0, in(x) >= 0
struct Model {
  int n = 0;
  Fn f;
  std::vector<Fn> eq, in;
  Vec x0;
  bool has_cost = true;

  LVec c_e(const LVec& x) const {
    LVec r(eq.size());
    for (size_t i = 0; i < eq.size(); ++i) r[i] = eq[i].value(x);
    return r;
  }
  LVec c_i(const LVec& x) const {
    LVec r(in.size());
    for (size_t i = 0; i < in.size(); ++i) r[i] = in[i].value(x);
    return r;
  }
  LMat A_e(const LVec& x) const {
    LMat r(eq.size(), n);
    for (size_t i = 0; i < eq.size(); ++i) r.row(i) = eq[i].grad(x).transpose();
    return r;
  }
  LMat A_i(const LVec& x) const {
    LMat r(in.size(), n);
    for (size_t i = 0; i < in.size(); ++i) r.row(i) = in[i].grad(x).transpose();
    return r;
  }
  LVec g(const LVec& x) const { return has_cost ? f.grad(x) : LVec(LVec::Zero(n)); }
  LMat H(const LVec& x, const LVec& y, const LVec& z) const {
    LMat h = has_cost ? f.hess(x) : LMat(LMat::Zero(n, n));
    for (size_t i = 0; i < eq.size(); ++i) h -= y[i] * eq[i].hess(x);
    for (size_t i = 0; i < in.size(); ++i) h -= z[i] * in[i].hess(x);
    return h;
  }
  void note(Case& c) const {
    if (has_cost) c.note("minimize {}", f.str());
    for (auto& e : eq) c.note("  {} = 0", e.str());
    for (auto& e : in) c.note("  {} >= 0", e.str());
    std::string s;
    for (int i = 0; i < n; ++i) s += std::format(" {:.17g}", x0[i]);
    c.note("from{}", s);
  }
};

/// Decision variables of a problem in a random mix of shapes
inline std::vector<V> decision_variables(Case& c, slp::Problem<double>& p, int n, bool plain = false) {
  std::vector<V> x;
  while (static_cast<int>(x.size()) < n) {
    int left = n - static_cast<int>(x.size());
    int form = plain ? 0 : c.weighted({2, 2, 1});
    if (form == 0) {
      x.push_back(p.decision_variable());
    } else if (form == 1) {
      int k = c.range(1, left);
      VM v = p.decision_variable(k);
      for (int i = 0; i < k; ++i) x.push_back(v[i]);
    } else {
      int r = c.range(1, left), k = c.range(1, left / r);
      VM v = p.decision_variable(r, k);
      for (int i = 0; i < r * k; ++i) x.push_back(v[i / k, i % k]);
    }
  }
  return x;
}

inline Fn negate(const Fn& f) {
  Fn g = f;
  for (auto& t : g.terms) t.w = -t.w;
  for (auto& b : g.bil) b.w = -b.w;
  g.l = -g.l;
  g.k = -g.k;
  return g;
}

/// States one constraint (>= 0 or == 0) in some equivalent form
inline void constrain(Case& c, slp::Problem<double>& p, Speller& sp, const Fn& f, bool eq, bool plain = false) {
  int form = plain ? 0 : c.range(0, 6);
  V e;
  Fn head = f, neg = negate(f);
  double k = f.k;
  head.k = 0;
  neg.k = 0;
  if (eq) {
    switch (form) {
      case 0: p.subject_to(sp.fn(f) == 0.0); break;
      case 1: p.subject_to(0 == sp.fn(f)); break;
      case 2: p.subject_to(sp.fn(head) == -k); break;
      case 3: p.subject_to(sp.fn(neg) == V{k}); break;
      case 4: p.subject_to(VM{sp.fn(f)} == 0.0); break;
      case 5: {
        auto q = sp.fn(head) == -k;
        p.subject_to(q);
        break;
      }
      default: p.subject_to(k == sp.fn(neg)); break;
    }
  } else {
    switch (form) {
      case 0: p.subject_to(sp.fn(f) >= 0.0); break;
      case 1: p.subject_to(0 <= sp.fn(f)); break;
      case 2: p.subject_to(sp.fn(head) >= -k); break;
      case 3: p.subject_to(sp.fn(neg) <= V{k}); break;
      case 4: p.subject_to(VM{sp.fn(neg)} <= k); break;
      case 5: {
        auto q = sp.fn(head) > -k;
        p.subject_to(q);
        break;
      }
      default: p.subject_to(k >= sp.fn(neg)); break;
    }
  }
}

/// Options to state consecutive constraints at once as a matrix constraint
inline void constrain_all(Case& c, slp::Problem<double>& p, Speller& sp, const std::vector<Fn>& fs, bool eq, bool plain = false) {
  for (size_t i = 0; i < fs.size();) {
    size_t k = plain ? 1 : static_cast<size_t>(c.range(1, static_cast<int>(fs.size() - i)));
    if (k == 1 || c.coin()) {
      constrain(c, p, sp, fs[i], eq, plain);
      ++i;
      continue;
    }
    VM m(static_cast<int>(k), 1);
    Vec rhs(k);
    for (size_t j = 0; j < k; ++j) {
      Fn h = fs[i + j];
      rhs[j] = -h.k;
      h.k = 0;
      m[static_cast<int>(j)] = sp.fn(h);
    }
    if (eq) p.subject_to(m == rhs);
    else if (c.coin()) p.subject_to(m >= rhs);
    else p.subject_to(rhs <= m);
    i += k;
  }
}

/// Builds the problem; returns its variables, set to the initial guess
inline std::vector<V> build(Case& c, slp::Problem<double>& p, const Model& m, bool plain = false, std::vector<std::pair<V, double>>* params = nullptr) {
  std::vector<V> x = decision_variables(c, p, m.n, plain);
  for (int i = 0; i < m.n; ++i) x[i].set_value(m.x0[i]);
  Speller sp{c, x, params, plain};
  bool cost_last = !plain && c.coin();
  auto cost = [&] {
    if (!m.has_cost) return;
    if (!plain && c.coin()) p.maximize(sp.fn(negate(m.f)));
    else p.minimize(sp.fn(m.f));
  };
  if (!cost_last) cost();
  constrain_all(c, p, sp, m.eq, true, plain);
  constrain_all(c, p, sp, m.in, false, plain);
  if (cost_last) cost();
  return x;
}

inline Vec values(std::vector<V>& x) {
  Vec v(x.size());
  for (size_t i = 0; i < x.size(); ++i) v[i] = x[i].value();
  return v;
}

/// A dense direction or one with few nonzeros
inline Vec gen_dir(Case& c, int n) {
  Vec a = Vec::Zero(n);
  if (c.chance(2, 3)) {
    int k = c.range(1, std::min(n, 3));
    for (int t = 0; t < k; ++t) a[c.range(0, n - 1)] = c.pick({1.0, -1.0, 2.0, 0.5, -0.5, 1.5, -2.0});
  } else if (n > 30) {
    for (int i = 0; i < 6; ++i) a[c.range(0, n - 1)] = c.grid(-2, 2);
  } else {
    for (int i = 0; i < n; ++i) a[i] = c.grid(-2, 2);
  }
  if (a.cwiseAbs().maxCoeff() < 0.1) a[c.range(0, n - 1)] = 1;
  return a;
}

struct Known {
  Model m;
  Vec x;          // the optimum
  Vec y, z;       // multipliers
  bool degenerate = false;
  double strong = 0;  // modulus of strong convexity of the cost
};

/// Of a matrix with at most as many rows as columns
inline double smallest_singular(const Mat& A) {
  if (A.rows() > 12) return std::sqrt(std::max(0.0, Eigen::SelfAdjointEigenSolver<Mat>(A * A.transpose(), Eigen::EigenvaluesOnly).eigenvalues()(0)));
  Eigen::JacobiSVD<Mat> sv(A);
  return sv.singularValues()(A.rows() - 1);
}

/// A convex problem with a known optimum and multipliers
inline Known gen_convex(Case& c, int max_n, bool allow_nonlinear = true, bool lp = false) {
  Known k;
  int n = c.size(1, max_n, 100);
  Model& m = k.m;
  m.n = n;
  m.f = Fn(n);
  k.x = Vec(n);
  for (int i = 0; i < n; ++i) k.x[i] = c.grid(-2, 2);
  // The cost: strongly convex
  double w0 = c.pick({0.5, 1.0, 0.25, 2.0});
  k.strong = 2 * w0;
  for (int i = 0; i < n; ++i) {
    Vec a = Vec::Zero(n);
    a[i] = 1;
    m.f.terms.push_back({SQ, w0, a, c.grid(-2, 2)});
  }
  int extra = c.size(0, 3, 20);
  for (int t = 0; t < extra; ++t) {
    Phi p = allow_nonlinear ? c.pick({SQ, HYP, LOGCOSH, EXP, QUART}) : SQ;
    Vec a = gen_dir(c, n);
    double b = c.grid(-1, 1);
    if (p == EXP || p == QUART) a *= 0.5;
    m.f.terms.push_back({p, c.pick({0.25, 1.0, 0.5, 2.0}), a, b});
  }
  // Equality constraints: independent affine ones
  int ne = c.range(0, std::max(0, std::min(n - 1, c.large() ? 30 : 3)));
  Mat E(ne, n);
  for (int i = 0; i < ne; ++i) {
    Fn e(n);
    e.l = gen_dir(c, n);
    E.row(i) = e.l.transpose();
    if (smallest_singular(E.topRows(i + 1)) < 0.2) {
      // make it independent
      ne = i;
      break;
    }
    e.k = -e.l.dot(k.x);
    m.eq.push_back(e);
  }
  // Inequality constraints: concave functions, active or with slack
  Mat act = E.topRows(ne);
  int ni = c.size(0, 6, 60);
  for (int i = 0; i < ni; ++i) {
    Fn f(n);
    int kind = allow_nonlinear ? c.weighted({3, 3, 2}) : c.weighted({3, 3});
    if (kind == 0) {  // a bound
      f.l[c.range(0, n - 1)] = c.pick({1.0, -1.0, 2.0, -0.5});
    } else if (kind == 1) {
      f.l = gen_dir(c, n);
    } else {
      Phi p = c.pick({SQ, HYP, EXP, LOGCOSH});
      int q = c.range(1, 2);
      for (int t = 0; t < q; ++t) {
        Vec a = gen_dir(c, n);
        if (p == EXP) a *= 0.5;
        f.terms.push_back({p, -c.pick({1.0, 0.5, 0.25}), a, c.grid(-1, 1)});
      }
      if (c.coin()) f.l = gen_dir(c, n);
    }
    int state = c.weighted({4, 5, 1});  // slack, active, degenerate
    LD v = f.value(k.x.cast<LD>());
    if (state > 0) {
      // Active constraints stay clearly independent
      Mat t(act.rows() + 1, n);
      t << act, f.grad(k.x.cast<LD>()).cast<double>().transpose();
      if (t.rows() > n || smallest_singular(t) < 0.2) state = 0;
      else act = t;
    }
    double slack = state == 0 ? c.grid(0.1, 3) : 0;
    f.k = static_cast<double>(slack - v);
    double z = state == 1 ? c.grid(0.1, 3) : 0;
    if (state == 2) k.degenerate = true;
    k.z.conservativeResize(m.in.size() + 1);
    k.z[m.in.size()] = z;
    m.in.push_back(f);
  }
  k.y = Vec(m.eq.size());
  for (int i = 0; i < k.y.size(); ++i) k.y[i] = c.grid(-3, 3);
  if (k.z.size() == 0) k.z = Vec(0);
  // Linear part of the cost: stationarity
  LVec xs = k.x.cast<LD>();
  LVec r = m.f.grad(xs);
  if (m.eq.size()) r -= m.A_e(xs).transpose() * k.y.cast<LD>();
  if (m.in.size()) r -= m.A_i(xs).transpose() * k.z.cast<LD>();
  m.f.l = -r.cast<double>();
  m.x0 = Vec(n);
  bool zero = c.chance(1, 3);
  for (int i = 0; i < n; ++i) m.x0[i] = zero ? 0 : c.grid(-3, 3);
  return k;
}

/// A smooth problem, in general not convex, with a feasible point
inline Model gen_general(Case& c, int max_n, Vec* feasible = nullptr, bool far = true) {
  Model m;
  int n = m.n = c.range(1, max_n);
  Vec xs(n);
  for (int i = 0; i < n; ++i) xs[i] = c.grid(-2, 2);
  auto nonlinear = [&](Fn& f, bool bounded_below) {
    int q = c.range(1, 3);
    for (int t = 0; t < q; ++t) {
      Phi p = c.pick({SQ, SIN, HYP, EXP, QUART, LOGCOSH});
      Vec a = gen_dir(c, n);
      if (p == EXP || p == QUART) a *= 0.5;
      double w = c.pick({1.0, 0.5, 2.0, -1.0, -0.5});
      if (bounded_below && p != SIN) w = std::abs(w);
      f.terms.push_back({p, w, a, c.grid(-1, 1)});
    }
    if (n > 1 && c.chance(1, 3)) {
      int i = c.range(0, n - 2);
      f.bil.push_back({c.pick({1.0, -1.0, 0.5}), i, c.range(i + 1, n - 1)});
    }
  };
  m.f = Fn(n);
  m.has_cost = !c.chance(1, 12);
  if (m.has_cost) {
    nonlinear(m.f, true);
    for (int i = 0; i < n; ++i) {
      Vec a = Vec::Zero(n);
      a[i] = 1;
      m.f.terms.push_back({SQ, c.pick({0.5, 0.25, 1.0}), a, 0});
    }
    if (c.chance(1, 5)) {
      // large gradients, so that the problem gets scaled
      double w = c.pick({100.0, 1000.0, 1e4});
      for (auto& t : m.f.terms) t.w *= w;
      for (auto& b : m.f.bil) b.w *= w;
    }
  }
  int kind = c.range(0, 3);
  int ne = kind == 1 || kind == 3 ? c.range(1, std::max(1, std::min(n - 1, 2))) : 0;
  int ni = kind >= 2 ? c.range(1, 4) : 0;
  if (!m.has_cost && ne + ni == 0) ni = 1;
  for (int i = 0; i < ne + ni; ++i) {
    Fn f(n);
    if (c.chance(2, 3)) f.l = gen_dir(c, n);
    if (f.l.isZero() || c.chance(1, 3)) nonlinear(f, false);
    if (c.chance(1, 8)) {
      double w = c.pick({200.0, 1000.0});
      for (auto& t : f.terms) t.w *= w;
      for (auto& b : f.bil) b.w *= w;
      f.l *= w;
    }
    double slack = i < ne ? 0 : c.chance(1, 3) ? 0 : c.grid(0, 2);
    f.k = slack - static_cast<double>(f.value(xs.cast<LD>()));
    (i < ne ? m.eq : m.in).push_back(f);
  }
  m.x0 = Vec(n);
  int start = c.weighted({2, 3, 2});
  for (int i = 0; i < n; ++i) m.x0[i] = start == 0 ? 0 : start == 1 || !far ? xs[i] + c.grid(-0.5, 0.5) : c.grid(-4, 4);
  if (feasible) *feasible = xs;
  return m;
}

}  // namespace model
