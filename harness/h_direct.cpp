// P38, P39: feasibility restoration and the solvers, driven by matrices
#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>
#include <sleipnir/optimization/solver/util/feasibility_restoration.hpp>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>

#include "model.hpp"

using namespace model;
using slp::ExitStatus;
using Info = slp::IterationInfo<double>;
using Sparse = Eigen::SparseMatrix<double>;
using SparseV = Eigen::SparseVector<double>;
using Callbacks = std::vector<std::function<bool(const Info&)>>;

namespace {

std::string show(const Vec& v) {
  std::string s;
  for (int i = 0; i < v.size(); ++i) s += std::format(" {:.17g}", v[i]);
  return s;
}
Mat lower(const Mat& m) { return m.triangularView<Eigen::Lower>(); }
Mat dense(const LMat& m) { return m.cast<double>(); }
double inf(const Vec& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0; }
double sum(const Vec& v) { return v.size() ? v.cwiseAbs().sum() : 0; }

/// Which derivatives may ever differ from zero
using Mask = Eigen::Matrix<bool, Eigen::Dynamic, Eigen::Dynamic>;
Mask mask1(const Fn& f, int n) {
  Mask r = Mask::Constant(1, n, false);
  for (int i = 0; i < n; ++i) r(i) = f.l[i] != 0;
  for (auto& t : f.terms)
    for (int i = 0; i < n; ++i) r(i) |= t.a[i] != 0;
  for (auto& b : f.bil) r(b.i) = r(b.j) = true;
  return r;
}
void mask2(Mask& r, const Fn& f, int n) {
  for (auto& t : f.terms)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j) r(i, j) |= t.a[i] != 0 && t.a[j] != 0;
  for (auto& b : f.bil) r(std::max(b.i, b.j), std::min(b.i, b.j)) = true;
}
Sparse sparse(const Mat& m, const Mask& mask) {
  std::vector<Eigen::Triplet<double>> t;
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i)
      if (mask(i, j)) t.emplace_back(i, j, m(i, j));
  Sparse r(m.rows(), m.cols());
  r.setFromTriplets(t.begin(), t.end());
  return r;
}

/// A model whose functions are multiplied by factors
struct Scaled {
  const Model& m;
  double d_f;
  Vec d_e, d_i;
  // Sparsity patterns stay the same at every point
  Mask M_e, M_i, M_c, M_h;

  void patterns(bool full) {
    const int n = m.n;
    M_e = Mask::Constant(m.eq.size(), n, full);
    M_i = Mask::Constant(m.in.size(), n, full);
    M_c = Mask::Constant(n, n, false);
    for (size_t i = 0; i < m.eq.size(); ++i) M_e.row(i) = M_e.row(i).array() || mask1(m.eq[i], n).array(), mask2(M_c, m.eq[i], n);
    for (size_t i = 0; i < m.in.size(); ++i) M_i.row(i) = M_i.row(i).array() || mask1(m.in[i], n).array(), mask2(M_c, m.in[i], n);
    M_h = M_c;
    if (m.has_cost) mask2(M_h, m.f, n);
  }

  double f(const Vec& x) const { return m.has_cost ? d_f * static_cast<double>(m.f.value(x.cast<LD>())) : 0; }
  Vec g(const Vec& x) const { return d_f * m.g(x.cast<LD>()).cast<double>(); }
  Vec c_e(const Vec& x) const { return d_e.cwiseProduct(m.c_e(x.cast<LD>()).cast<double>()); }
  Vec c_i(const Vec& x) const { return d_i.cwiseProduct(m.c_i(x.cast<LD>()).cast<double>()); }
  Mat A_e(const Vec& x) const { return d_e.asDiagonal() * dense(m.A_e(x.cast<LD>())); }
  Mat A_i(const Vec& x) const { return d_i.asDiagonal() * dense(m.A_i(x.cast<LD>())); }
  Mat H_c(const Vec& x, const Vec& y, const Vec& z) const {
    LMat h = LMat::Zero(m.n, m.n);
    for (size_t i = 0; i < m.eq.size(); ++i) h -= static_cast<LD>(d_e[i] * y[i]) * m.eq[i].hess(x.cast<LD>());
    for (size_t i = 0; i < m.in.size(); ++i) h -= static_cast<LD>(d_i[i] * z[i]) * m.in[i].hess(x.cast<LD>());
    return dense(h);
  }
  Mat H(const Vec& x, const Vec& y, const Vec& z) const {
    Mat h = H_c(x, y, z);
    if (m.has_cost) h += d_f * dense(m.f.hess(x.cast<LD>()));
    return h;
  }
  slp::ProblemScaling<double> scaling() const { return {d_f, d_e, d_i}; }

  slp::InteriorPointMatrixCallbacks<double> ipm() const {
    slp::InteriorPointMatrixCallbacks<double> k;
    k.num_decision_variables = m.n;
    k.num_equality_constraints = m.eq.size();
    k.num_inequality_constraints = m.in.size();
    k.f = [this](const Vec& x) { return f(x); };
    k.g = [this](const Vec& x) { return SparseV(g(x).sparseView()); };
    k.H = [this](const Vec& x, const Vec& y, const Vec& z) { return sparse(H(x, y, z), M_h); };
    k.H_c = [this](const Vec& x, const Vec& y, const Vec& z) { return sparse(H_c(x, y, z), M_c); };
    k.c_e = [this](const Vec& x) { return c_e(x); };
    k.A_e = [this](const Vec& x) { return sparse(A_e(x), M_e); };
    k.c_i = [this](const Vec& x) { return c_i(x); };
    k.A_i = [this](const Vec& x) { return sparse(A_i(x), M_i); };
    k.scaling = scaling();
    return k;
  }
  slp::SQPMatrixCallbacks<double> sqp() const {
    slp::SQPMatrixCallbacks<double> k;
    k.num_decision_variables = m.n;
    k.num_equality_constraints = m.eq.size();
    k.f = [this](const Vec& x) { return f(x); };
    k.g = [this](const Vec& x) { return SparseV(g(x).sparseView()); };
    k.H = [this](const Vec& x, const Vec& y) { return sparse(H(x, y, Vec(0)), M_h); };
    k.H_c = [this](const Vec& x, const Vec& y) { return sparse(H_c(x, y, Vec(0)), M_c); };
    k.c_e = [this](const Vec& x) { return c_e(x); };
    k.A_e = [this](const Vec& x) { return sparse(A_e(x), M_e); };
    k.scaling = scaling();
    return k;
  }
  slp::NewtonMatrixCallbacks<double> newton() const {
    slp::NewtonMatrixCallbacks<double> k;
    k.num_decision_variables = m.n;
    k.f = [this](const Vec& x) { return f(x); };
    k.g = [this](const Vec& x) { return SparseV(g(x).sparseView()); };
    k.H = [this](const Vec& x) { return sparse(H(x, Vec(0), Vec(0)), M_h); };
    k.scaling = scaling();
    return k;
  }
};

Scaled gen_scaling(Case& c, const Model& m) {
  Scaled s{m, 1, Vec::Ones(m.eq.size()), Vec::Ones(m.in.size())};
  if (c.coin()) {
    s.d_f = c.pick({1.0, 0.5, 0.125, 0.03});
    for (int i = 0; i < s.d_e.size(); ++i) s.d_e[i] = c.pick({1.0, 0.5, 0.1});
    for (int i = 0; i < s.d_i.size(); ++i) s.d_i[i] = c.pick({1.0, 0.5, 0.1});
    c.note("scaling {} |{} |{}", s.d_f, show(s.d_e), show(s.d_i));
  }
  s.patterns(c.chance(1, 3));
  return s;
}

bool close(const Mat& a, const Mat& b, double rel = 1e-9) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(std::abs(a(i, j) - b(i, j)) <= rel * (1 + std::max(std::abs(a(i, j)), std::abs(b(i, j)))))) return false;
  return true;
}

}  // namespace

PROPERTY("restoration", "constraints violated at the start, at least one of them nonlinear, and the violation was reduced to nothing or to a local minimum") {
  bool ipm = c.chance(2, 3);
  Model m;
  // Inconsistent constraints are common enough when stated at random
  m = gen_general(c, 4);
  if (c.coin())
    for (auto* fs : {&m.eq, &m.in})
      for (auto& f : *fs) f.k += c.grid(-2, 2);
  if (m.in.empty()) ipm = false;
  if (!ipm && m.eq.empty()) {
    m.eq = m.in;
    if (static_cast<int>(m.eq.size()) > m.n) m.eq.erase(m.eq.begin() + m.n, m.eq.end());
  }
  if (!ipm) m.in.clear();
  const int n = m.n, ne = m.eq.size(), ni = m.in.size();
  if (ipm ? ni == 0 : ne == 0) throw pbt::Discard{};
  m.note(c);
  Scaled sc = gen_scaling(c, m);
  slp::Options o;
  o.tolerance = c.pick({1e-6, 1e-8});
  o.max_iterations = 300;

  const Vec xr = m.x0;
  Vec s0(ni), y0(ne), z0(ni);
  for (int i = 0; i < ni; ++i) s0[i] = c.pick({1.0, 0.5, 0.1, 2.0, 1e-3});
  for (int i = 0; i < ne; ++i) y0[i] = c.grid(-1, 1);
  for (int i = 0; i < ni; ++i) z0[i] = c.grid(0.1, 2);
  double mu = c.pick({0.1, 1e-3, 1e-8});
  Vec x = xr, s = s0, y = y0, z = z0;
  int it0 = c.pick({0, 0, 3, 17}), it = it0;
  int stop_after = c.coin() ? c.range(0, 8) : -1;
  bool stop_feasible = c.coin();
  c.note("{} s{} y{} z{} mu {} from iteration {}", ipm ? "ipm" : "sqp", show(s0), show(y0), show(z0), mu, it0);

  const int nx = n + 2 * ne + 2 * ni;
  Vec w(n), last_x, last_s;
  double rho = 0, mag = 1;
  int calls = 0;
  bool stopped = false;
  Callbacks cb;
  cb.push_back([&](const Info& i) -> bool {
    PCHECK(i.iteration == it0 + calls, "call {} is iteration {}", calls, i.iteration);
    PCHECK(i.x.size() == nx, "{} variables instead of {}", i.x.size(), nx);
    PCHECK(i.s.size() == 3 * ni + 2 * ne && i.z.size() == i.s.size() && i.y.size() == ne, "sizes {} {} {}", i.s.size(), i.y.size(), i.z.size());
    Vec xh = i.x.head(n), p_e = i.x.segment(n, ne), n_e = i.x.segment(n + ne, ne);
    Vec p_i = i.x.segment(n + 2 * ne, ni), n_i = i.x.tail(ni);
    if (sum(xh) > 1e4) throw pbt::Discard{};
    // Constraint Jacobians
    Mat Ae = Mat::Zero(ne, nx), Ai = Mat::Zero(3 * ni + 2 * ne, nx);
    Ae.leftCols(n) = sc.A_e(xh);
    for (int k = 0; k < ne; ++k) Ae(k, n + k) = -1, Ae(k, n + ne + k) = 1;
    Ai.topLeftCorner(ni, n) = sc.A_i(xh);
    for (int k = 0; k < ni; ++k) Ai(k, n + 2 * ne + k) = -1, Ai(k, n + 2 * ne + ni + k) = 1;
    for (int k = 0; k < 2 * ne + 2 * ni; ++k) Ai(ni + k, n + k) = 1;
    PCHECK(close(Mat(i.A_e), Ae), "equality Jacobian at{}", show(i.x));
    PCHECK(close(Mat(i.A_i), Ai), "inequality Jacobian at{}", show(i.x));
    // Hessian and gradient: a proximal term in x, a linear one in the slacks
    Mat H = lower(Mat(i.H));
    Mat Hc = sc.H_c(xh, i.y, i.z.head(ni));
    Mat rest = H;
    rest.topLeftCorner(n, n) -= lower(Hc);
    mag = std::max(mag, 1 + Hc.cwiseAbs().maxCoeff());
    if (calls == 0) {
      w = rest.diagonal().head(n);
      for (int k = 0; k < n; ++k) PCHECK(w[k] > -1e-9 * mag, "proximal weight {} of x{}", w[k], k);
      // The weights are one factor times min(1, 1/xᵣ²)
      int big = 0;
      auto d = [&](int k) { return std::min(1.0, 1 / (xr[k] * xr[k])); };
      for (int k = 1; k < n; ++k)
        if (d(k) > d(big)) big = k;
      for (int k = 0; k < n; ++k) PCHECK(std::abs(w[k] * d(big) - w[big] * d(k)) < 1e-7 * mag, "proximal weights{} around{}", show(w), show(xr));
    }
    Mat W = Mat::Zero(nx, nx);
    W.diagonal().head(n) = w;
    PCHECK((rest - W).cwiseAbs().maxCoeff() < 1e-8 * mag, "Hessian at{}: off by {}, constraints{}, weights{}, call {}", show(i.x), (rest - W).cwiseAbs().maxCoeff(), show(Hc.reshaped()), show(w), calls);
    Vec g = Vec(i.g);
    if (calls == 0) {
      rho = g[n];
      PCHECK(rho > 0, "price of violation {}", rho);
    }
    PCHECK(close(g.head(n), w.cwiseProduct(xh - xr), 1e-8 * mag), "gradient{} at{}, weights{}", show(g.head(n)), show(xh), show(w));
    for (int k = n; k < nx; ++k) PCHECK(g[k] == rho, "price {} instead of {}", g[k], rho);
    // Interior
    for (int k = 0; k < i.s.size(); ++k) PCHECK(i.s[k] > 0 && i.z[k] > 0, "slack {} multiplier {}", i.s[k], i.z[k]);
    if (calls == 0) {
      PCHECK(xh == xr, "starts at{}", show(xh));
      PCHECK(i.s.head(ni) == s0, "slacks start at{}", show(i.s));
      for (int k = n; k < nx; ++k) PCHECK(i.x[k] >= 0, "relaxation {}", i.x[k]);
      Vec v = sc.c_e(xr) - p_e + n_e;
      PCHECK(inf(v) < 1e-8 * (1 + inf(p_e) + inf(n_e)), "starts with relaxed equality{}", show(v));
      v = sc.c_i(xr) - s0 - p_i + n_i;
      PCHECK(inf(v) < 1e-8 * (1 + inf(p_i) + inf(n_i)), "starts with relaxed inequality{}", show(v));
    }
    last_x = xh;
    last_s = i.s.head(ni);
    bool stop = calls == stop_after || (stop_feasible && calls > 0 && sum(sc.c_e(xh)) < 1e-3 && (ni == 0 || sc.c_i(xh).minCoeff() > 0));
    ++calls;
    stopped |= stop;
    return stop;
  });
  auto violation = [&](const Vec& v) { return sum(sc.c_e(v)) + (ni ? (-sc.c_i(v)).cwiseMax(0).sum() : 0.0); };
  ExitStatus st = ipm ? slp::feasibility_restoration<double>(sc.ipm(), cb, o, x, s, y, z, mu, it)
                      : slp::feasibility_restoration<double>(sc.sqp(), cb, o, x, y, it);
  c.label(std::format("{}{}", st, st == ExitStatus::LOCALLY_INFEASIBLE && violation(x) > 1e-2 ? " (truly)" : ""));
  c.note("{} at{}, s{}", st, show(x), show(s));
  PCHECK(it >= it0, "iterations {} from {}", it, it0);
  PCHECK(x.size() == n && s.size() == ni && y.size() == ne && z.size() == ni, "sizes");
  PCHECK((st == ExitStatus::SUCCESS) == stopped, "{}, stop requested: {}", st, stopped);
  PCHECK(st == ExitStatus::SUCCESS || st == ExitStatus::LOCALLY_INFEASIBLE || st == ExitStatus::FEASIBILITY_RESTORATION_FAILED, "{}", st);
  bool nl = false;
  for (auto* fs : {&m.eq, &m.in})
    for (auto& f : *fs) nl |= !f.linear();
  if (st == ExitStatus::SUCCESS) {
    PCHECK(x == last_x && s == last_s, "returned{} |{} instead of{} |{}", show(x), show(s), show(last_x), show(last_s));
    SparseV g = sc.g(x).sparseView();
    Sparse Ae = sparse(sc.A_e(x), sc.M_e), Ai = sparse(sc.A_i(x), sc.M_i);
    if (ipm) {
      auto e = slp::lagrange_multiplier_estimate(g, Ae, Ai, s, mu);
      PCHECK(close(y, e.y, 1e-6) && close(z, e.z, 1e-6), "multipliers{} |{} instead of{} |{}", show(y), show(z), show(e.y), show(e.z));
    } else {
      Vec e = slp::lagrange_multiplier_estimate(g, Ae);
      PCHECK(close(y, e, 1e-6), "multipliers{} instead of{}", show(y), show(e));
    }
  } else if (st == ExitStatus::LOCALLY_INFEASIBLE && calls > 0 && violation(x) > 1e-2) {
    // A local minimum of the violation, but for the pull of the starting point
    Vec ce = sc.c_e(x), ci = sc.c_i(x);
    Mat Ae = sc.A_e(x), Ai = sc.A_i(x);
    Vec pull = w.cwiseProduct(x - xr) / rho;
    auto act = [&](const Vec& a) { return 1e-3 * (1 + a.norm()); };
    auto slope = [&](const Vec& d) {
      double v = pull.dot(d);
      for (int k = 0; k < ne; ++k) {
        double a = Ae.row(k).dot(d);
        v += std::abs(ce[k]) < act(Ae.row(k)) ? std::abs(a) : ce[k] > 0 ? a : -a;
      }
      for (int k = 0; k < ni; ++k) {
        double a = Ai.row(k).dot(d);
        v += std::abs(ci[k]) < act(Ai.row(k)) ? std::max(0.0, -a) : ci[k] < 0 ? -a : 0;
      }
      return v;
    };
    // The steepest descent over the subdifferential needs a projection; try
    // axes, random directions and the smooth descent
    std::vector<Vec> ds;
    for (int k = 0; k < n; ++k) ds.push_back(Vec::Unit(n, k)), ds.push_back(-Vec::Unit(n, k));
    Vec desc = -pull;
    for (int k = 0; k < ne; ++k)
      if (std::abs(ce[k]) >= act(Ae.row(k))) desc -= (ce[k] > 0 ? 1.0 : -1.0) * Ae.row(k).transpose();
    for (int k = 0; k < ni; ++k)
      if (ci[k] <= -act(Ai.row(k))) desc += Ai.row(k).transpose();
    ds.push_back(desc);
    for (int k = 0; k < 8; ++k) {
      Vec d(n);
      for (int j = 0; j < n; ++j) d[j] = c.grid(-1, 1);
      ds.push_back(d);
    }
    for (auto& d : ds) {
      if (d.norm() < 1e-9) continue;
      double v = slope(d) / d.norm();
      PCHECK(v > -1e-3, "violation {} decreases with slope {} along{}", violation(x), v, show(d));
    }
  }
  c.nontrivial(nl && violation(xr) > 1e-3 && st != ExitStatus::FEASIBILITY_RESTORATION_FAILED && calls > 1);
}

PROPERTY("direct_solvers", "constraints, scaling factors other than one, and a warm start or several callbacks") {
  bool convex = c.coin();
  Known known;
  Model m;
  if (convex) {
    known = gen_convex(c, 5);
    m = known.m;
  } else {
    m = gen_general(c, 4);
  }
  const int n = m.n, ne = m.eq.size(), ni = m.in.size();
  m.note(c);
  Scaled sc = gen_scaling(c, m);
  slp::Options o;
  o.tolerance = c.pick({1e-8, 1e-6});
  // The stronger solvers also solve problems without the constraints they allow
  int least = ni ? 2 : ne ? 1 : 0;
  int solver = c.range(least, ni ? 2 : 1);
  bool full = c.coin();
  Vec x = m.x0, s = Vec::Ones(ni), y = Vec::Zero(ne), z = Vec::Ones(ni);
  double mu = 0.1 * sc.d_f;
  int it0 = 0;
  bool warm = full && c.coin();
  if (warm) {
    for (int i = 0; i < ni; ++i) s[i] = c.pick({1.0, 0.5, 0.1, 2.0}), z[i] = c.pick({1.0, 0.5, 0.1, 2.0});
    for (int i = 0; i < ne; ++i) y[i] = c.grid(-1, 1);
    if (solver == 2) it0 = c.pick({0, 0, 5});
    mu *= c.pick({1.0, 1.0, 10.0, 0.1});
  }
  c.note("solver {}, s{} y{} z{} mu {} tolerance {} from iteration {}", solver, show(s), show(y), show(z), mu, o.tolerance, it0);
  int it = it0, calls = 0, last = -1;
  bool restored = false, far = false;
  Vec lx;
  Callbacks cb;
  int ncb = c.range(0, 2);
  for (int k = 0; k < ncb; ++k)
    cb.push_back([&, k](const Info& i) {
      if (k) {
        PCHECK(i.iteration == last, "callbacks see different iterations");
        return false;
      }
      ++calls;
      restored |= i.x.size() != n;
      last = i.iteration;
      far |= sum(i.x) > 1e3;
      if (restored) return false;
      PCHECK(i.iteration == it0 + calls - 1, "call {} is iteration {}", calls, i.iteration);
      PCHECK(i.s.size() == (solver == 2 ? ni : 0) && i.z.size() == i.s.size() && i.y.size() == (solver ? ne : 0), "sizes {} {} {}", i.s.size(), i.y.size(), i.z.size());
      if (calls == 1) {
        PCHECK(i.x == m.x0, "starts at{}", show(i.x));
        if (solver == 2) PCHECK(i.s == s && i.z == z, "starts with slacks{} |{}", show(i.s), show(i.z));
        if (solver) PCHECK(i.y == y, "starts with multipliers{}", show(i.y));
      }
      for (int j = 0; j < i.s.size(); ++j) PCHECK(i.s[j] > 0 && i.z[j] > 0, "slack {} multiplier {}", i.s[j], i.z[j]);
      if (far) return false;
      PCHECK(close(Vec(i.g), sc.g(i.x), 1e-12), "gradient at{}", show(i.x));
      PCHECK(close(lower(Mat(i.H)), lower(sc.H(i.x, i.y, i.z)), 1e-12), "Hessian at{}", show(i.x));
      if (solver) PCHECK(close(Mat(i.A_e), sc.A_e(i.x), 1e-12), "equality Jacobian at{}", show(i.x));
      if (solver == 2) PCHECK(close(Mat(i.A_i), sc.A_i(i.x), 1e-12), "inequality Jacobian at{}", show(i.x));
      lx = i.x;
      return false;
    });
  ExitStatus st;
  Vec sx = s, yx = y, zx = z;
  if (solver == 2) st = full ? slp::interior_point<double>(sc.ipm(), cb, o, false, x, sx, yx, zx, mu, it) : slp::interior_point<double>(sc.ipm(), cb, o, x);
  else if (solver == 1) st = full ? slp::sqp<double>(sc.sqp(), cb, o, x, yx) : slp::sqp<double>(sc.sqp(), cb, o, x);
  else st = slp::newton<double>(sc.newton(), cb, o, x);
  c.label(std::format("{}", st));
  c.label(std::format("solver {}{}", solver, full ? " full" : ""));
  c.note("{} at{} s{} y{} z{} after {} iterations", st, show(x), show(sx), show(yx), show(zx), it);
  if (st == ExitStatus::SUCCESS && sum(x) < 1e3) {
    Vec ce = m.c_e(x.cast<LD>()).cast<double>(), ci = m.c_i(x.cast<LD>()).cast<double>();
    PCHECK(inf(ce) <= o.tolerance * 1.01 + 1e-12, "equality constraints{}", show(ce));
    // Multipliers of the problem without scaling
    if (full && (solver == 2 || (solver == 1))) {
      Vec yu = sc.d_e.cwiseProduct(yx) / sc.d_f;
      Vec zu = solver == 2 ? Vec(sc.d_i.cwiseProduct(zx) / sc.d_f) : Vec(0);
      Vec su = solver == 2 ? Vec(sx.cwiseQuotient(sc.d_i)) : Vec(0);
      double sd = std::max(100.0, (sum(yu) + sum(zu)) / std::max(1, ne + ni)) / 100, scl = std::max(100.0, sum(zu) / std::max(1, ni)) / 100;
      Vec r = m.g(x.cast<LD>()).cast<double>();
      double mag = inf(r);
      r -= dense(m.A_e(x.cast<LD>())).transpose() * yu;
      if (solver == 2) r -= dense(m.A_i(x.cast<LD>())).transpose() * zu;
      PCHECK(inf(r) <= o.tolerance * sd * 1.01 + 1e-12 * (mag + sum(yu) + sum(zu)), "not stationary: {} of{}", inf(r), show(r));
      for (int i = 0; i < zu.size(); ++i) {
        PCHECK(zu[i] > 0 && su[i] > 0, "slack {} multiplier {}", su[i], zu[i]);
        PCHECK(su[i] * zu[i] <= o.tolerance * scl * 1.01 + 1e-12, "complementarity {} {}", su[i], zu[i]);
        PCHECK(std::abs(ci[i] - su[i]) <= o.tolerance * 1.01 + 1e-10 + 1e-12 * std::abs(ci[i]), "inequality {} with slack {}", ci[i], su[i]);
      }
    }
    if (convex) {
      double tol = 10 * std::sqrt(o.tolerance / sc.d_f * (1 + sum(known.y) + sum(known.z)) / known.strong);
      PCHECK(inf(x - known.x) < tol, "{} from the optimum{}, allowed {}", inf(x - known.x), show(known.x), tol);
    }
    if (ncb && !restored && lx.size()) PCHECK(it == it0 || it > it0, "iterations {}", it);
  }
  // An exponential can take an iterate to where nothing can be computed
  bool exponential = false;
  for (auto& t : m.f.terms) exponential |= t.phi == EXP;
  for (auto& f : m.in)
    for (auto& t : f.terms) exponential |= t.phi == EXP;
  if (convex && !exponential) PCHECK(st == ExitStatus::SUCCESS || st == ExitStatus::LOCALLY_INFEASIBLE || st == ExitStatus::LINE_SEARCH_FAILED, "convex problem: {}", st);
  c.nontrivial(ne + ni > 0 && (sc.d_f != 1 || warm || ncb > 1) && st == ExitStatus::SUCCESS);
}
