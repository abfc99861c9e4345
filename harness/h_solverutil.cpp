// Numerical building blocks of the solvers, against their definitions.
#include <malloc.h>
#include <cmath>
#include <limits>
#include <optional>

#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/SparseCore>

#include "pbt.hpp"

#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/optimization/solver/util/all_finite.hpp>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/bounds.hpp>
#include <sleipnir/optimization/solver/util/feasibility_restoration.hpp>
#include <sleipnir/optimization/solver/util/filter.hpp>
#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
#include <sleipnir/optimization/solver/util/kkt_error.hpp>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>

namespace {

using LD = long double;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using Sp = Eigen::SparseMatrix<double>;
using slp::KKTErrorType;
constexpr double INF = std::numeric_limits<double>::infinity();

/// Magnitudes from 1e-4 to 1e4 with any sign, zeros frequent
double gen_mag(pbt::Case& c) {
  switch (c.weighted({2, 4, 2, 1})) {
    case 0: return 0;
    case 1: return c.num(5);
    case 2: return c.real(-300, 300);
    default: return c.real(-1, 1) * std::pow(10, c.range(-4, 4));
  }
}
double gen_pos(pbt::Case& c) {
  switch (c.weighted({3, 2, 1})) {
    case 0: return c.range(1, 8) / 4.0;
    case 1: return c.real(0.01, 10);
    default: return c.real(1, 10) * std::pow(10, c.range(-8, 4));
  }
}
Vec gen_vec(pbt::Case& c, int n) {
  Vec v(n);
  for (int i = 0; i < n; ++i) v[i] = gen_mag(c);
  return v;
}
Vec gen_pvec(pbt::Case& c, int n) {
  Vec v(n);
  for (int i = 0; i < n; ++i) v[i] = gen_pos(c);
  return v;
}
Mat gen_mat(pbt::Case& c, int r, int k) {
  Mat A = Mat::Zero(r, k);
  bool sparse = c.coin();
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < k; ++j)
      if (!sparse || c.chance(1, 3)) A(i, j) = gen_mag(c);
  return A;
}
/// Sparse copy; sometimes with explicit zeros or uncompressed
Sp to_sparse(pbt::Case& c, const Mat& A) {
  Sp S(A.rows(), A.cols());
  std::vector<Eigen::Triplet<double>> t;
  bool keep_zeros = c.chance(1, 4);
  for (int j = 0; j < A.cols(); ++j)
    for (int i = 0; i < A.rows(); ++i)
      if (A(i, j) != 0 || keep_zeros) t.emplace_back(i, j, A(i, j));
  S.setFromTriplets(t.begin(), t.end());
  if (c.chance(1, 6)) S.uncompress();
  return S;
}

bool near(double got, LD want, LD scale, LD tol = 1e-11L) {
  if (std::isnan(got)) return false;
  return std::abs(got - want) <= tol * (std::abs(want) + scale) + 1e-300L;
}

/// Residuals of the KKT conditions and the magnitudes involved
struct Kkt {
  std::vector<LD> grad, gmag, comp, cmag, ce, ci, cimag;
  LD y1 = 0, z1 = 0;
  int m = 0, n = 0;
};
Kkt kkt_of(const Vec& g, const Mat& Ae, const Vec& ce, const Mat& Ai, const Vec& ci, const Vec& s, const Vec& y, const Vec& z, double mu) {
  Kkt k;
  for (int i = 0; i < g.rows(); ++i) {
    LD r = g[i], a = std::abs(g[i]);
    for (int j = 0; j < y.rows(); ++j) {
      r -= LD{Ae(j, i)} * y[j];
      a += std::abs(LD{Ae(j, i)} * y[j]);
    }
    for (int j = 0; j < z.rows(); ++j) {
      r -= LD{Ai(j, i)} * z[j];
      a += std::abs(LD{Ai(j, i)} * z[j]);
    }
    k.grad.push_back(r);
    k.gmag.push_back(a);
  }
  for (int j = 0; j < z.rows(); ++j) {
    k.comp.push_back(LD{s[j]} * z[j] - mu);
    k.cmag.push_back(std::abs(LD{s[j]} * z[j]) + std::abs(mu));
    k.ci.push_back(LD{ci[j]} - s[j]);
    k.cimag.push_back(std::abs(ci[j]) + std::abs(s[j]));
    k.z1 += std::abs(z[j]);
  }
  for (int j = 0; j < y.rows(); ++j) {
    k.ce.push_back(ce[j]);
    k.y1 += std::abs(y[j]);
  }
  k.m = y.rows();
  k.n = z.rows();
  return k;
}
LD inf_norm(const std::vector<LD>& v) {
  LD r = 0;
  for (LD x : v) r = std::max(r, std::abs(x));
  return r;
}
LD one_norm(const std::vector<LD>& v) {
  LD r = 0;
  for (LD x : v) r += std::abs(x);
  return r;
}
/// Equation (5) of the IPOPT paper: scaled ∞-norm error
LD kkt_inf(const Kkt& k, LD* mag) {
  LD sd = k.m + k.n == 0 ? 1 : std::max<LD>(100, (k.y1 + k.z1) / (k.m + k.n)) / 100;
  LD sc = k.n == 0 ? 1 : std::max<LD>(100, k.z1 / k.n) / 100;
  *mag = inf_norm(k.gmag) / sd + inf_norm(k.cmag) / sc + inf_norm(k.ce) + inf_norm(k.cimag);
  return std::max({inf_norm(k.grad) / sd, inf_norm(k.comp) / sc, inf_norm(k.ce), inf_norm(k.ci)});
}
LD kkt_one(const Kkt& k, LD* mag) {
  *mag = one_norm(k.gmag) + one_norm(k.cmag) + one_norm(k.ce) + one_norm(k.cimag);
  return one_norm(k.grad) + one_norm(k.comp) + one_norm(k.ce) + one_norm(k.ci);
}

constexpr auto IN = KKTErrorType::INF_NORM_SCALED;
constexpr auto ON = KKTErrorType::ONE_NORM;

}  // namespace

PROPERTY("kkt_error", "at least one constraint with a non-zero multiplier, and (if scaled) a factor other than 1") {
  c.scale_up(400);
  int n = c.size(1, 5, 60), m = c.size(0, 4, 40), q = c.size(0, 4, 40);
  bool big = c.chance(1, 4);  // multipliers large enough for the error scaling to matter
  Vec g = gen_vec(c, n), ce = gen_vec(c, m), ci = gen_vec(c, q), y = gen_vec(c, m), z = gen_pvec(c, q), s = gen_pvec(c, q);
  if (big) {
    y *= 300;
    z *= 300;
  }
  Mat Ae = gen_mat(c, m, n), Ai = gen_mat(c, q, n);
  double mu = c.coin() ? 0.0 : gen_pos(c);
  // Sometimes make one or more of the conditions hold
  if (c.chance(1, 3)) g = Ae.transpose() * y + Ai.transpose() * z;
  if (c.chance(1, 3)) ce.setZero();
  if (c.chance(1, 3)) ci = s;
  if (c.chance(1, 3)) for (int i = 0; i < q; ++i) z[i] = mu / s[i];
  Sp SAe = to_sparse(c, Ae), SAi = to_sparse(c, Ai);

  // Scaled problem
  double df = c.coin() ? 1.0 : gen_pos(c);
  Vec de = gen_pvec(c, m), di = gen_pvec(c, q);
  auto kind = c.range(0, 2);  // 0 Newton, 1 SQP, 2 interior-point
  Mat nAe(0, n), nAi(0, n);
  Vec none(0);
  c.note("n={} m={} q={} mu={} kind={} df={} g={}", n, m, q, mu, kind, df, g[0]);
  LD mi, mo;
  auto check = [&](double got, LD want, LD mag, const char* what) {
    PCHECK(near(got, want, mag), "{}: error {} expected {}", what, got, (double)want);
  };
  if (kind == 0) {
    auto k = kkt_of(g, nAe, none, nAi, none, none, none, none, 0);
    LD wi = kkt_inf(k, &mi), wo = kkt_one(k, &mo);
    check(slp::kkt_error<double, IN>(g), wi, mi, "inf");
    check(slp::kkt_error<double, ON>(g), wo, mo, "one");
    slp::ProblemScaling<double> sc{df, none, none};
    Vec gs = df * g;
    check(slp::unscaled_kkt_error<double, IN>(sc, gs), wi, mi, "unscaled inf");
    check(slp::unscaled_kkt_error<double, ON>(sc, gs), wo, mo, "unscaled one");
    c.nontrivial(df != 1 && wi > 0);
  } else if (kind == 1) {
    auto k = kkt_of(g, Ae, ce, nAi, none, none, y, none, 0);
    LD wi = kkt_inf(k, &mi), wo = kkt_one(k, &mo);
    check(slp::kkt_error<double, IN>(g, SAe, ce, y), wi, mi, "inf");
    check(slp::kkt_error<double, ON>(g, SAe, ce, y), wo, mo, "one");
    slp::ProblemScaling<double> sc{df, de, none};
    Vec gs = df * g, cs = de.cwiseProduct(ce), ys = df * y.cwiseQuotient(de);
    Sp As = (de.asDiagonal() * Ae).eval().sparseView(1.0, 0.0);
    check(slp::unscaled_kkt_error<double, IN>(sc, gs, As, cs, ys), wi, mi, "unscaled inf");
    check(slp::unscaled_kkt_error<double, ON>(sc, gs, As, cs, ys), wo, mo, "unscaled one");
    check(slp::unscaled_kkt_error<double, IN>(slp::ProblemScaling<double>{}, g, SAe, ce, y), wi, mi, "identity");
    c.nontrivial(k.y1 > 0 && m > 0);
  } else {
    auto k = kkt_of(g, Ae, ce, Ai, ci, s, y, z, mu);
    LD wi = kkt_inf(k, &mi), wo = kkt_one(k, &mo);
    check(slp::kkt_error<double, IN>(g, SAe, ce, SAi, ci, s, y, z, mu), wi, mi, "inf");
    check(slp::kkt_error<double, ON>(g, SAe, ce, SAi, ci, s, y, z, mu), wo, mo, "one");
    slp::ProblemScaling<double> sc{df, de, di};
    Vec gs = df * g, ces = de.cwiseProduct(ce), cis = di.cwiseProduct(ci), ss = di.cwiseProduct(s), ys = df * y.cwiseQuotient(de), zs = df * z.cwiseQuotient(di);
    Sp Aes = (de.asDiagonal() * Ae).eval().sparseView(1.0, 0.0), Ais = (di.asDiagonal() * Ai).eval().sparseView(1.0, 0.0);
    check(slp::unscaled_kkt_error<double, IN>(sc, gs, Aes, ces, Ais, cis, ss, ys, zs, df * mu), wi, mi, "unscaled inf");
    check(slp::unscaled_kkt_error<double, ON>(sc, gs, Aes, ces, Ais, cis, ss, ys, zs, df * mu), wo, mo, "unscaled one");
    check(slp::unscaled_kkt_error<double, IN>(slp::ProblemScaling<double>{}, g, SAe, ce, SAi, ci, s, y, z, mu), wi, mi, "identity");
    c.nontrivial(k.y1 + k.z1 > 0);
    c.label(big ? "large multipliers" : "small multipliers");
  }
}

PROPERTY("problem_scaling", "a row or the gradient has a component above 100") {
  c.scale_up(400);
  int n = c.size(1, 5, 60), m = c.size(0, 4, 40), q = c.size(0, 4, 40);
  Vec g = gen_vec(c, n);
  Mat Ae = gen_mat(c, m, n), Ai = gen_mat(c, q, n);
  if (c.coin()) g *= 50;
  if (c.coin()) Ae *= 50;
  if (c.coin()) Ai *= 50;
  Sp SAe = to_sparse(c, Ae), SAi = to_sparse(c, Ai);
  auto want = [](double norm) { return norm <= 100 ? 1.0 : 100.0 / norm; };
  auto norm = [](const Mat& A, int i) {
    double r = 0;
    for (int j = 0; j < A.cols(); ++j) r = std::max(r, std::abs(A(i, j)));
    return r;
  };
  double gn = g.cwiseAbs().maxCoeff();
  bool big = gn > 100;
  auto rows = [&](const Vec& d, const Mat& A, const char* what) {
    PCHECK(d.rows() == A.rows(), "{} factors for {} {} constraints", d.rows(), A.rows(), what);
    for (int i = 0; i < A.rows(); ++i) {
      double rn = norm(A, i);
      big |= rn > 100;
      PCHECK(near(d[i], want(rn), 0, 1e-13L), "{} constraint {} with gradient norm {} has factor {} expected {}", what, i, rn, d[i], want(rn));
    }
  };
  c.note("gradient norm {}", gn);
  slp::ProblemScaling<double> newton{g}, sqp{g, SAe}, ipm{g, SAe, SAi}, id;
  for (auto* p : {&newton, &sqp, &ipm}) PCHECK(near(p->f, want(gn), 0, 1e-13L), "cost factor {} expected {}", p->f, want(gn));
  rows(sqp.c_e, Ae, "equality");
  rows(ipm.c_e, Ae, "equality");
  rows(ipm.c_i, Ai, "inequality");
  PCHECK(newton.c_e.size() == 0 && newton.c_i.size() == 0 && sqp.c_i.size() == 0, "factors without constraints");
  PCHECK(id.is_identity() && id.f == 1, "default scaling is not the identity");
  PCHECK(newton.is_identity() == (newton.f == 1), "identity: {} with factor {}", newton.is_identity(), newton.f);
  c.nontrivial(big);
}

PROPERTY("fraction_to_boundary", "the full step leaves the allowed region in at least one component") {
  c.scale_up(100);
  int n = c.size(0, 6, 2000);
  Vec x = gen_pvec(c, n), p(n);
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({3, 2, 1, 1})) {
      case 0: p[i] = gen_mag(c); break;
      case 1: p[i] = -x[i] * c.real(0.5, 1.5); break;
      case 2: p[i] = -x[i] * std::pow(10, c.range(-3, 12)); break;
      default: p[i] = 0;
    }
  }
  double tau = c.coin() ? c.real(0.01, 1) : c.pick({0.99, 0.5, 0.995, 1.0});
  LD want = 1;
  int active = 0;
  for (int i = 0; i < n; ++i)
    if (p[i] < 0) {
      LD a = -LD{tau} * x[i] / p[i];
      active += a < 1;
      want = std::min(want, a);
    }
  c.note("n={} tau={} want={}", n, tau, (double)want);
  c.nontrivial(active >= 1);
  if (active >= 2) c.label("several limiting components");
  double a = slp::fraction_to_the_boundary_rule<double>(x, p, tau);
  PCHECK(a > 0 && a <= 1, "step size {}", a);
  PCHECK(near(a, want, 0, 1e-12L), "step size {} expected {}", a, (double)want);
}

PROPERTY("local_infeasibility", "constraints are violated at a stationary point of their violation, or nearly so") {
  // c = r + A d with Aᵀr = 0: the violation is stationary iff Aᵀc = AᵀA d = 0
  c.scale_up(400);
  int n = c.size(1, 4, 30), m = c.size(0, 5, 40);
  bool eq = c.coin();
  Mat A = Mat::Zero(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) A(i, j) = c.chance(1, 3) ? 0 : c.num(3);
  Vec v(m);
  for (int i = 0; i < m; ++i) v[i] = c.num(3);
  int mode = c.range(0, 3);
  if (mode <= 1 && m > 0) {
    // Project onto the null space of Aᵀ
    Eigen::FullPivHouseholderQR<Mat> qr(Mat(A.transpose() * A));
    v -= A * qr.solve(A.transpose() * v);
    v -= A * qr.solve(A.transpose() * v);
    if (mode == 1) v = v * std::pow(10, c.range(-9, 0));
  } else if (mode == 2) {
    v.setZero();
  }
  if (!eq) {
    // Only violated inequalities count; the satisfied ones get any non-negative value
    bool neg = true;
    for (int i = 0; i < m; ++i) neg &= v[i] <= 0;
    if (mode <= 1 && !neg) {
      // make all remaining rows satisfied by zeroing their Jacobian contribution
      for (int i = 0; i < m; ++i)
        if (v[i] > 0) v[i] = c.real(0, 5);
    }
  }
  Vec viol = v;
  if (!eq) viol = v.cwiseMin(0.0);
  double nv = viol.norm(), ns = m ? Vec(A.transpose() * viol).norm() : 0;
  Sp S = to_sparse(c, A);
  bool got = eq ? slp::is_equality_locally_infeasible<double>(S, v) : slp::is_inequality_locally_infeasible<double>(S, v);
  c.note("{} m={} violation {} gradient {} -> {}", eq ? "equality" : "inequality", m, nv, ns, got);
  double eps = 1e-2;
  if (m == 0 || nv < eps * 0.99) {
    PCHECK(!got, "{} violation {} reported as infeasible", eq ? "equality" : "inequality", nv);
  } else if (ns > 1.01e-6) {
    PCHECK(!got, "violation can still be reduced (gradient {}) but reported as infeasible", ns);
    c.nontrivial(ns < 1);
  } else if (ns < 0.99e-6 && nv > eps * 1.01) {
    PCHECK(got, "violation {} is stationary (gradient {}) but not reported", nv, ns);
    c.nontrivial();
    c.label(eq ? "equality stationary" : "inequality stationary");
  }
}

PROPERTY("multiplier_estimate_singular", "the constraint Jacobian has a zero row or two proportional rows") {
  int m = c.range(1, 3), n = m + c.range(0, 2);
  bool sqp = c.coin();
  int q = sqp ? 0 : c.range(0, 3);
  Mat Ae(m, n), Ai(q, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) Ae(i, j) = c.chance(1, 2) ? 0 : c.range(-3, 3);
  for (int i = 0; i < q; ++i)
    for (int j = 0; j < n; ++j) Ai(i, j) = c.chance(1, 2) ? 0 : c.range(-3, 3);
  if (c.chance(2, 3)) Ae.row(c.range(0, m - 1)).setZero();
  else if (m > 1) Ae.row(0) = Ae.row(1);
  Vec g(n), s(q);
  for (int i = 0; i < n; ++i) g[i] = c.num(5);
  for (int i = 0; i < q; ++i) s[i] = c.real(0.01, 5);
  double mu = c.pick({0.1, 1e-2, 1e-4, 1.0});
  Eigen::SparseVector<double> sg = g.sparseView(1.0, 0.0);
  Sp SAe = to_sparse(c, Ae), SAi = to_sparse(c, Ai);
  // The result does not depend on what memory happened to hold
  Vec y[2], z[2];
  for (int k = 0; k < 2; ++k) {
    mallopt(M_PERTURB, k ? 0xaa : 0x55);
    for (int w = 0; w < 40; ++w) {  // blocks handed out again
      auto* p = static_cast<char*>(malloc(8 << (w % 8)));
      memset(p, k ? 0x3f : 0x41, 8 << (w % 8));
      free(p);
    }
    if (sqp) {
      y[k] = slp::lagrange_multiplier_estimate<double>(sg, SAe);
    } else {
      auto e = slp::lagrange_multiplier_estimate<double>(sg, SAe, SAi, s, mu);
      y[k] = e.y;
      z[k] = e.z;
    }
  }
  auto same = [](const Vec& a, const Vec& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0; };
  c.note("m={} q={}", m, q);
  PCHECK(y[0].size() == m && (sqp || z[0].size() == q), "sizes {} {}", y[0].size(), z[0].size());
  PCHECK(same(y[0], y[1]) && (sqp || same(z[0], z[1])), "two calls with the same arguments give different estimates");
  if (!sqp && q) PCHECK(z[0].minCoeff() > 0, "inequality dual {}", z[0].minCoeff());
  c.nontrivial(Eigen::FullPivLU<Mat>(Ae).rank() < m);
}

PROPERTY("multiplier_estimate", "at least one equality and (interior-point) one inequality constraint") {
  c.scale_up(400);
  int m = c.size(0, 3, 20), q = c.size(0, 3, 20), n = m + q + c.range(1, 3);
  double noise = 0.3 / (1 + (m + q) / 4);
  bool sqp = c.coin();
  if (sqp) q = 0;
  if (m + q == 0) throw pbt::Discard{};
  // Well-conditioned rows: identity block plus small noise, columns shuffled
  Mat Ae = Mat::Zero(m, n), Ai = Mat::Zero(q, n);
  for (int i = 0; i < m; ++i) {
    Ae(i, i) = c.pick({1.0, -2.0, 3.0});
    for (int j = 0; j < n; ++j) if (c.chance(1, 3)) Ae(i, j) += c.real(-noise, noise);
  }
  for (int i = 0; i < q; ++i) {
    Ai(i, m + i) = c.pick({1.0, -2.0, 3.0});
    for (int j = 0; j < n; ++j) if (c.chance(1, 3)) Ai(i, j) += c.real(-noise, noise);
  }
  Vec g(n);
  for (int i = 0; i < n; ++i) g[i] = c.chance(1, 3) ? 0 : c.num(5);
  Vec s = Vec(q);
  for (int i = 0; i < q; ++i) s[i] = c.real(0.01, 5);
  double mu = c.pick({0.1, 1e-2, 1e-4, 1.0});
  // Sometimes the gradient is an exact combination: the estimate must find the multipliers
  bool exact = c.coin();
  Vec y0 = gen_vec(c, m) * 0.1, z0(q);
  for (int i = 0; i < q; ++i) z0[i] = mu / s[i];
  if (exact) g = Ae.transpose() * y0 + Ai.transpose() * z0;
  Eigen::SparseVector<double> sg = g.sparseView(1.0, 0.0);
  Sp SAe = to_sparse(c, Ae), SAi = to_sparse(c, Ai);
  c.note("m={} q={} exact={}", m, q, exact);
  // Least-squares reference
  Mat K = Mat::Zero(n + q, m + q);
  K.topLeftCorner(n, m) = Ae.transpose();
  K.block(0, m, n, q) = Ai.transpose();
  for (int i = 0; i < q; ++i) K(n + i, m + i) = -s[i];
  Vec b(n + q);
  b << g, Vec::Constant(q, -mu);
  Vec ref = K.colPivHouseholderQr().solve(b);
  double scale = 1 + b.norm() + ref.norm();
  Vec y, z(0);
  if (sqp) {
    y = slp::lagrange_multiplier_estimate<double>(sg, SAe);
  } else {
    auto e = slp::lagrange_multiplier_estimate<double>(sg, SAe, SAi, s, mu);
    y = e.y;
    z = e.z;
  }
  PCHECK(y.rows() == m && z.rows() == q, "{} and {} multipliers", y.rows(), z.rows());
  for (int i = 0; i < m; ++i) {
    PCHECK(near(y[i], ref[i], scale, 1e-8L), "y[{}] = {} expected {}", i, y[i], ref[i]);
    if (exact) PCHECK(near(y[i], y0[i], scale, 1e-8L), "y[{}] = {} is not the multiplier {}", i, y[i], y0[i]);
  }
  for (int i = 0; i < q; ++i) {
    double lo = mu / s[i] * 1e-10, hi = mu / s[i] * 1e10;
    PCHECK(z[i] >= lo * (1 - 1e-9) && z[i] <= hi * (1 + 1e-9), "z[{}] = {} outside [{}, {}]", i, z[i], lo, hi);
    double w = std::clamp(ref[m + i], lo, hi);
    PCHECK(near(z[i], w, scale, 1e-8L), "z[{}] = {} expected {}", i, z[i], w);
  }
  c.nontrivial(m >= 1 && (sqp || q >= 1));
}

PROPERTY("restoration_slacks", "the constraint has a non-zero value of either sign") {
  c.scale_up(200);
  int n = c.size(1, 5, 300);
  Vec v(n);
  double mx = 0;
  for (int i = 0; i < n; ++i) {
    v[i] = c.coin() ? c.num(10) : c.real(-1, 1) * std::pow(10, c.range(-6, 4));
    mx = std::max(mx, std::abs(v[i]));
  }
  double rho = 1000, mu = std::max(mx, c.pick({1e-8, 0.1, 1e-3, 10.0}));
  if (c.chance(1, 3)) rho = c.real(1, 2000);
  auto [p, q] = slp::compute_p_n<double>(v, rho, mu);
  PCHECK(p.rows() == n && q.rows() == n, "sizes");
  for (int i = 0; i < n; ++i) {
    c.note("c={} mu={} rho={} p={} n={}", v[i], mu, rho, p[i], q[i]);
    PCHECK(p[i] > 0 && q[i] > 0, "slacks p = {}, n = {} for c = {}", p[i], q[i], v[i]);
    PCHECK(near(p[i] - q[i], v[i], p[i] + q[i], 1e-13L), "p - n = {} for c = {}", p[i] - q[i], v[i]);
    // Stationary point of ρ(p + n) - μ(ln p + ln n) subject to p - n = c
    LD r = 2 * LD{rho} * p[i] * q[i] - LD{mu} * (LD{p[i]} + q[i]);
    PCHECK(std::abs(r) <= 1e-6L * (2 * LD{rho} * p[i] * q[i] + LD{mu} * (LD{p[i]} + q[i])), "slacks p = {}, n = {} are not optimal for c = {}, mu = {}, rho = {}", p[i], q[i], v[i], mu, rho);
    c.nontrivial(v[i] != 0);
  }
}

// --- Regularized factorization ----------------------------------------------------------

namespace {

slp::Inertia eig_inertia(const Mat& M, double tol, bool* clear) {
  Eigen::SelfAdjointEigenSolver<Mat> es(M, Eigen::EigenvaluesOnly);
  slp::Inertia r;
  double mx = std::max(1.0, es.eigenvalues().cwiseAbs().maxCoeff());
  for (double e : es.eigenvalues()) {
    if (std::abs(e) < tol * mx) *clear = false;
    if (e > 0) ++r.positive;
    else ++r.negative;
  }
  return r;
}

}  // namespace

PROPERTY("regularized_ldlt", "at least two factorizations with one object, one of them of a matrix with the wrong inertia") {
  c.scale_up(400);
  int n = c.size(1, 6, 40), m = c.range(0, std::min(n, c.large() ? 20 : 3));
  double noise = 0.4 / (1 + m / 4);
  bool sparse = c.coin();
  std::optional<double> gmin;
  if (c.chance(1, 3)) gmin = c.pick({0.0, 1e-10, 1e-6});
  auto solver = gmin ? slp::RegularizedLDLT<double>{sparse, n, m, *gmin} : slp::RegularizedLDLT<double>{sparse, n, m};
  int rounds = c.range(1, 4);
  bool wrong = false;
  double last_d = 0;
  bool full = c.coin();  // give both triangles, or only the lower one
  for (int round = 0; round < rounds; ++round) {
    // H: convex, indefinite, negative or singular. A: full rank or not.
    int hk = c.weighted({8, 6, 2, 2, 1}), ak = c.weighted({3, 1});
    Mat Q = Mat::Zero(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j) Q(i, j) = c.chance(1, 3) ? 0 : c.real(-1, 1);
    Mat H;
    if (hk == 0) H = Q * Q.transpose() + Mat::Identity(n, n) * c.real(0.2, 2);
    else if (hk == 1) H = Q + Q.transpose();
    else if (hk == 2) H = Mat::Zero(n, n);
    else if (hk == 3) H = -(Q * Q.transpose()) - Mat::Identity(n, n) * 0.1;
    else H = Mat::Identity(n, n), H *= -c.pick({1e22, 1e25, 1e30});  // no regularization that is allowed helps
    if (hk != 4 && c.chance(1, 5)) H *= std::pow(10, c.range(-2, 3));
    Mat A = Mat::Zero(m, n);
    for (int i = 0; i < m; ++i) {
      if (ak == 0) A(i, i) = c.pick({1.0, -2.0, 0.5});
      for (int j = 0; j < n; ++j) if (c.chance(1, 3)) A(i, j) += c.real(-noise, noise);
    }
    if (ak == 1 && m >= 2) A.row(1) = A.row(0);
    int N = n + m;
    Mat K = Mat::Zero(N, N);
    K.topLeftCorner(n, n) = H;
    K.bottomLeftCorner(m, n) = A;
    K.topRightCorner(n, m) = A.transpose();
    // Same sparsity pattern in every round
    Sp S(N, N);
    std::vector<Eigen::Triplet<double>> t;
    for (int j = 0; j < N; ++j)
      for (int i = 0; i < N; ++i) {
        bool in = i < n || j < n;
        if (in && (i >= j || full)) t.emplace_back(i, j, K(i, j));
      }
    S.setFromTriplets(t.begin(), t.end());
    solver.compute(S);
    double prev_d = round == 0 ? 0 : last_d;
    double d = solver.hessian_regularization(), gm = solver.constraint_jacobian_regularization();
    c.note("round {}: n={} m={} sparse={} hessian kind {} jacobian kind {}: info {} delta {} gamma {}", round, n, m, sparse, hk, ak, static_cast<int>(solver.info()), d, gm);
    PCHECK(d >= 0 && gm >= 0 && std::isfinite(d) && std::isfinite(gm), "regularization {} {}", d, gm);
    last_d = d;
    wrong |= hk != 0;
    bool nice = hk == 0 && ak == 0;
    Mat R = K;
    for (int i = 0; i < n; ++i) R(i, i) += d;
    for (int i = n; i < N; ++i) R(i, i) -= gm;
    if (hk == 4) {
      if (m == n) break;
      PCHECK(solver.info() != Eigen::Success, "success with curvature {}, delta {}, gamma {}", H(0, 0), d, gm);
      c.label("hopeless");
      break;
    }
    if (nice) {
      PCHECK(solver.info() == Eigen::Success, "factorization of a well-conditioned convex system failed");
      // Convex, well-conditioned systems are solved without any regularization
      bool clear = true;
      Eigen::SelfAdjointEigenSolver<Mat> eh(H, Eigen::EigenvaluesOnly);
      Eigen::JacobiSVD<Mat> sv(m ? A : Mat::Identity(1, 1));
      bool well = eh.eigenvalues().minCoeff() > 1e-2 && eh.eigenvalues().maxCoeff() < 1e2 && sv.singularValues().minCoeff() > 0.2;
      if (well && clear) {
        // The sparse factorization doesn't pivot, so a zero in the lower right
        // block can be hit. The smallest regularization always fixes that.
        if (!sparse || m == 0) PCHECK(d == 0 && gm == 0, "a well-conditioned convex system was regularized: {} {}", d, gm);
        else if (gmin.value_or(1e-10) > 0) PCHECK(d <= std::max(1e-4, prev_d / 2) * 1.0001 && gm <= gmin.value_or(1e-10) * 1.0001, "a well-conditioned convex system was regularized excessively: {} {} (previously {})", d, gm, prev_d);
        c.label("well-conditioned");
      }
    }
    if (solver.info() != Eigen::Success) {
      // Only ill-conditioning justifies giving up
      PCHECK(!nice, "gave up");
      PCHECK(d > 1e15 || gm > 1e15, "gave up with regularization {} {}", d, gm);
      continue;
    }
    // Regularization starts at the minimum asked for, ...
    if (d > 0) PCHECK(gm >= gmin.value_or(1e-10) * 0.999, "the system was regularized with gamma {} although the minimum is {}", gm, gmin.value_or(1e-10));
    // ... from a small value or half the last one, and grows tenfold only where less doesn't give the right inertia
    if (d > std::max(1e-4, prev_d / 2) * 1.001 && (!sparse || m == 0)) {
      Mat L1 = K, L2 = K;
      for (int i = 0; i < n; ++i) L1(i, i) += d / 10, L2(i, i) += d / 10;
      for (int i = n; i < N; ++i) L1(i, i) -= gm, L2(i, i) -= gm / 10;
      bool sure1 = true, sure2 = true;
      auto i1 = eig_inertia(L1, 1e-3, &sure1), i2 = eig_inertia(L2, 1e-3, &sure2);
      PCHECK(!(sure1 && sure2 && i1.positive == n && i1.negative == m && i2.positive == n && i2.negative == m),
             "regularized with delta {} although {} suffices", d, d / 10);
      c.label("escalated");
    }
    // ... and comes down again where half the last one suffices
    if (prev_d > 1e-12 && prev_d < 1e15 && d >= prev_d * 0.999 && (!sparse || m == 0)) {
      Mat L1 = K;
      for (int i = 0; i < n; ++i) L1(i, i) += prev_d / 2;
      for (int i = n; i < N; ++i) L1(i, i) -= gm;
      bool sure = true;
      auto i1 = eig_inertia(L1, 1e-3, &sure);
      PCHECK(!(sure && i1.positive == n && i1.negative == m && (m == 0 || gm <= gmin.value_or(1e-10) * 1.001)),
             "regularized with delta {} after {} although half suffices", d, prev_d);
    }
    bool clear = true;
    auto in = eig_inertia(R, 1e-9, &clear);
    if (clear) {
      PCHECK(in.positive == n && in.negative == m, "regularized system has {} positive and {} negative eigenvalues, expected {} and {}", in.positive, in.negative, n, m);
      c.label(d > 0 ? "regularized" : "unregularized");
      // The solution solves the regularized system
      Vec b(N);
      for (int i = 0; i < N; ++i) b[i] = c.chance(1, 4) ? 0 : c.num(5);
      Vec x;
      if (c.coin()) x = solver.solve(b);
      else x = solver.solve(Eigen::SparseVector<double>(b.sparseView(1.0, 0.0)));
      PCHECK(x.rows() == N, "solution has {} rows", x.rows());
      Eigen::SelfAdjointEigenSolver<Mat> es(R, Eigen::EigenvaluesOnly);
      double emin = es.eigenvalues().cwiseAbs().minCoeff(), emax = es.eigenvalues().cwiseAbs().maxCoeff();
      if (emin > 1e-3 && emax < 1e4 && d == 0) {
        double res = (R * x - b).norm();
        PCHECK(res <= 1e-6 * (1 + b.norm() + emax * x.norm()), "residual {}", res);
        c.label("residual checked");
      } else if (emin > 1e-4) {
        double res = (R * x - b).norm();
        PCHECK(res <= 1e-2 * (1 + b.norm() + emax * x.norm()), "residual {} (regularized)", res);
        c.label("residual checked (regularized)");
      }
    }
  }
  c.nontrivial(rounds >= 2 && wrong);
}

PROPERTY("inertia", "entries of at least two of the three kinds") {
  c.scale_up(200);
  int n = c.size(0, 8, 700);
  Vec D(n);
  int p = 0, q = 0, z = 0;
  for (int i = 0; i < n; ++i) {
    int k = c.range(0, 2);
    double mag = c.coin() ? c.real(0.1, 10) : std::pow(10, c.range(-14, 14));
    D[i] = k == 0 ? mag : k == 1 ? -mag : c.pick({0.0, -0.0, 1e-17, -1e-17});
    (k == 0 ? p : k == 1 ? q : z)++;
  }
  slp::Inertia a{D};
  PCHECK(a.positive == p && a.negative == q && a.zero == z, "({}, {}, {}) expected ({}, {}, {})", a.positive, a.negative, a.zero, p, q, z);
  Mat M = D.asDiagonal();
  const Mat& cm = M;
  slp::Inertia b{cm.diagonal()};
  PCHECK(a == b, "vector and diagonal differ");
  PCHECK((a == slp::Inertia{p, q, z}) && !(a == slp::Inertia{p + 1, q, z}) && !(a == slp::Inertia{p, q + 1, z}) && !(a == slp::Inertia{p, q, z + 1}), "equality");
  c.note("({}, {}, {})", p, q, z);
  c.nontrivial((p > 0) + (q > 0) + (z > 0) >= 2);
}

// --- Filter ------------------------------------------------------------------------------

PROPERTY("filter", "a trial is rejected because of an earlier iterate, and another is accepted") {
  using E = slp::FilterEntry<double>;
  double init = c.coin() ? gen_pos(c) : 0;
  slp::Filter<double> f{init};
  double vmin = 1e-4 * std::max(1.0, init), vmax = 1e4 * std::max(1.0, init);
  PCHECK(near(f.min_constraint_violation, vmin, 0) && near(f.max_constraint_violation, vmax, 0), "violation limits");
  struct R {
    LD cost, viol;
  };
  std::vector<R> mem;
  // Sometimes a long walk between points none of which dominates another
  bool front = c.chance(1, 40);
  int n = front ? c.range(20, 120) : c.range(1, 14), acc = 0, rej = 0;
  auto border = [&](LD a, LD b) {
    if (std::abs(a - b) <= 1e-12L * (std::abs(a) + std::abs(b)) && a != b) throw pbt::Discard{};
  };
  double cur_c = c.num(10), cur_v = c.coin() ? gen_pos(c) : c.pick({0.0, 1e-6, 1e-5});
  for (int i = 0; i < n; ++i) {
    if (!front && c.chance(1, 8)) {
      f.reset();
      mem.clear();
      c.note("reset");
      continue;
    }
    double tc, tv;
    bool walk = front && c.chance(3, 4);
    switch (walk ? 5 : front ? 4 : c.weighted({5, 2, 1, 2, 2})) {
      case 5: {
        double at = c.real(0.01, 1);
        tc = 10 - 10 * at;
        tv = vmax * at * 0.9;
        break;
      }
      case 0: tc = cur_c + c.real(-1, 1) * std::pow(10, c.range(-9, 1)); tv = std::abs(cur_v * c.pick({0.0, 0.5, 0.9, 0.99999, 1.0, 1.1, 2.0, 10.0})); break;
      case 1: tc = c.num(10); tv = std::abs(gen_mag(c)); break;
      case 2: tc = c.pick({INF, -INF, std::nan("")}); tv = cur_v; break;
      case 3: tc = cur_c; tv = cur_v; break;
      default:
        if (mem.empty()) {
          tc = cur_c - 1;
          tv = vmax * c.pick({0.5, 2.0});
        } else {
          auto& r = c.pick(mem);
          tc = static_cast<double>(r.cost) + c.pick({-1.0, 0.0, 1.0, 1e-3, -1e-3});
          tv = std::abs(static_cast<double>(r.viol) * c.pick({0.5, 1.0, 2.0}));
        }
    }
    double D = walk ? 0 : c.weighted({2, 1}) == 0 ? -gen_pos(c) : gen_mag(c);
    double a = c.pick({1.0, 0.5, 0.25, 1.0 / 1024});
    E cur{cur_c, cur_v}, trial{tc, tv};
    bool got = f.try_add(cur, trial, D, a);
    c.note("current ({}, {}) trial ({}, {}) slope {} step {} -> {}", cur_c, cur_v, tc, tv, D, a, got);
    if (!std::isfinite(tc) || tv > vmax) {
      PCHECK(!got, "accepted a trial with cost {} and violation {}", tc, tv);
      PCHECK(!f.last_rejection_due_to_filter(), "rejection was not due to the filter");
      continue;
    }
    border(tv, vmax);
    LD sw_l = D < 0 ? a * std::pow(-LD{D}, 2.3L) : 0, sw_r = std::pow(LD{cur_v}, 1.1L);
    if (D < 0 && std::abs(sw_l - sw_r) <= 1e-9L * (sw_l + sw_r)) throw pbt::Discard{};
    bool sw = D < 0 && sw_l > sw_r;
    LD ar = LD{cur_c} + 1e-8L * a * D;
    border(tc, ar);
    bool armijo = tc <= ar;
    LD phi = std::pow(LD{a}, 1.5L);
    LD sc = LD{cur_c} - phi * 1e-8L * cur_v, sv = (1 - phi * 1e-5L) * cur_v;
    border(tc, sc);
    border(tv, sv);
    border(cur_v, vmin);
    bool dec = tc <= sc || tv <= sv;
    bool ok = (cur_v <= vmin && sw) ? armijo : dec;
    if (!ok) {
      PCHECK(!got, "accepted a trial that does not make progress");
      PCHECK(!f.last_rejection_due_to_filter(), "rejection was not due to the filter");
      ++rej;
      continue;
    }
    bool dominated = false;
    for (auto& r : mem) {
      border(r.cost, tc);
      border(r.viol, tv);
      dominated |= r.cost <= tc && r.viol <= tv;
    }
    if (dominated) {
      PCHECK(!got, "accepted a trial dominated by an earlier iterate");
      PCHECK(f.last_rejection_due_to_filter(), "rejection was due to the filter");
      c.label("dominated");
      ++rej;
      if (acc) c.nontrivial();
      continue;
    }
    PCHECK(got, "rejected an acceptable trial");
    ++acc;
    if (rej) c.nontrivial();
    if (!sw || !armijo) mem.push_back({sc, sv});
    if (walk || c.coin()) {
      cur_c = tc;
      cur_v = tv;
    }
  }
  // Entries
  int k = c.range(0, 4);
  Vec ce = gen_vec(c, c.range(0, 3)), ci = gen_vec(c, k), s = gen_pvec(c, k);
  double cost = c.num(10), mu = gen_pos(c);
  LD want = 0, lg = 0;
  for (double v : ce) want += std::abs(v);
  E e1{cost, ce};
  PCHECK(near(e1.constraint_violation, want, 0) && e1.cost == cost, "equality violation {} expected {}", e1.constraint_violation, (double)want);
  LD lm = 0;
  for (int i = 0; i < k; ++i) {
    want += std::abs(LD{ci[i]} - s[i]);
    lg += std::log(LD{s[i]});
    lm += std::abs(std::log(LD{s[i]}));
  }
  E e2{cost, s, ce, ci, mu};
  PCHECK(near(e2.constraint_violation, want, 1), "violation {} expected {}", e2.constraint_violation, (double)want);
  PCHECK(near(e2.cost, cost - mu * lg, 1 + mu * lm), "barrier cost {} expected {}", e2.cost, (double)(cost - mu * lg));
}

// --- Bounds --------------------------------------------------------------------------------

PROPERTY("bounds", "a variable with at least two bounds, and a constraint that is not a bound") {
  using V = slp::Variable<double>;
  c.scale_up(400);
  int n = c.size(1, 4, 60), q = c.size(0, 8, 300);
  slp::VariableMatrix<double> x(n);
  std::vector<V> xs;
  std::vector<double> val(n);
  for (int i = 0; i < n; ++i) {
    val[i] = c.chance(1, 3) ? 0 : c.num(5);
    x[i].set_value(val[i]);
    xs.push_back(x[i]);
  }
  V param;
  param.set_value(c.num(3));
  std::vector<V> cons;
  struct B {
    int var;
    LD bound;
    bool lower;
    bool exact;
  };
  std::vector<std::optional<B>> want;
  int others = 0;
  std::vector<int> per(n);
  for (int k = 0; k < q; ++k) {
    switch (c.weighted({8, 1, 1, 1, 1, 1, 1})) {
      case 0: {  // a x + b >= 0, written in several ways
        int i = static_cast<int>(c.draw(n));
        double a = c.pick({1.0, -1.0, 2.0, -0.5, 4.0, -3.0}), b = c.num(5);
        V e;
        switch (c.range(0, 4)) {
          case 0: e = a * xs[i] + b; break;
          case 1: e = b + xs[i] * a; break;
          case 2: e = (xs[i] * (2 * a) + 2 * b) / 2.0; break;
          case 3: e = a > 0 ? V{xs[i] * a - (-b)} : V{b - (-a) * xs[i]}; break;
          default: e = (a - 1) * xs[i] + b + xs[i]; break;  // the coefficients add up
        }
        cons.push_back(e);
        want.push_back(B{i, -LD{b} / a, a > 0, true});
        ++per[i];
        c.note("{} x{} + {} >= 0", a, i, b);
        break;
      }
      case 1: {  // parameter as offset
        int i = static_cast<int>(c.draw(n));
        cons.push_back(xs[i] - param);
        want.push_back(B{i, param.value(), true, true});
        ++per[i];
        c.note("x{} - p >= 0, p = {}", i, param.value());
        break;
      }
      case 2: {  // two variables
        if (n < 2) continue;
        cons.push_back(xs[0] + 2 * xs[1] - c.num(3));
        want.push_back({});
        ++others;
        c.note("x0 + 2 x1 - k >= 0");
        break;
      }
      case 3: {
        int i = static_cast<int>(c.draw(n));
        cons.push_back(xs[i] * xs[i] - 1);
        want.push_back({});
        ++others;
        c.note("x{}^2 - 1 >= 0", i);
        break;
      }
      case 4: {
        cons.push_back(slp::sin(xs[0]) + 2);
        want.push_back({});
        ++others;
        c.note("sin(x0) + 2 >= 0");
        break;
      }
      case 5: {  // linear, but in no decision variable
        cons.push_back(param + 5);
        want.push_back({});
        ++others;
        c.note("p + 5 >= 0");
        break;
      }
      default: {  // cancels
        int i = static_cast<int>(c.draw(n));
        cons.push_back(xs[i] - xs[i] + 1);
        want.push_back({});
        ++others;
        c.note("x{} - x{} + 1 >= 0", i, i);
        break;
      }
    }
  }
  q = static_cast<int>(cons.size());
  slp::VariableMatrix<double> ci(q);
  for (int k = 0; k < q; ++k) ci[k] = cons[k];
  Eigen::SparseMatrix<double, Eigen::RowMajor> A(q, n);
  if (q > 0) A = slp::Jacobian<double>(ci, x).value();
  auto r = slp::get_bounds<double>(xs, cons, A);
  PCHECK(r.bound_constraint_mask.size() == q, "mask has {} entries", r.bound_constraint_mask.size());
  PCHECK(static_cast<int>(r.bounds.size()) == n, "{} bounds", r.bounds.size());
  std::vector<LD> lo(n, -INF), hi(n, INF);
  for (int k = 0; k < q; ++k) {
    if (want[k]) {
      auto& b = *want[k];
      PCHECK(r.bound_constraint_mask[k], "constraint {} is a bound but was not recognized", k);
      if (b.lower) lo[b.var] = std::max(lo[b.var], b.bound);
      else hi[b.var] = std::min(hi[b.var], b.bound);
    } else if (A.rows() && A.row(k).nonZeros() != 1) {
      PCHECK(!r.bound_constraint_mask[k], "constraint {} is not a bound", k);
    }
  }
  bool conflict = false, borderline = false, two = false;
  for (int i = 0; i < n; ++i) {
    auto same = [](double a, LD b) { return std::isinf(static_cast<double>(b)) ? a == static_cast<double>(b) : near(a, b, 1, 1e-12L); };
    PCHECK(same(r.bounds[i].first, lo[i]), "lower bound of x{} is {} expected {}", i, r.bounds[i].first, (double)lo[i]);
    PCHECK(same(r.bounds[i].second, hi[i]), "upper bound of x{} is {} expected {}", i, r.bounds[i].second, (double)hi[i]);
    if (lo[i] > hi[i] + 1e-9L) conflict = true;
    else if (lo[i] > hi[i] - 1e-9L) borderline = true;
    PCHECK(xs[i].value() == val[i], "value of x{} changed from {} to {}", i, val[i], xs[i].value());
    two |= per[i] >= 2;
  }
  if (conflict) PCHECK(!r.conflicting_bound_indices.empty(), "conflicting bounds not reported");
  if (!conflict && !borderline) PCHECK(r.conflicting_bound_indices.empty(), "bounds reported as conflicting");
  for (auto& [a, b] : r.conflicting_bound_indices) {
    PCHECK(a >= 0 && a < q && b >= 0 && b < q && want[a] && want[b], "conflict between constraints {} and {}", a, b);
    PCHECK(want[a]->var == want[b]->var && want[a]->lower && !want[b]->lower && want[a]->bound > want[b]->bound - 1e-9L, "constraints {} and {} do not conflict", a, b);
  }
  if (conflict) c.label("conflict");
  c.nontrivial(two && others);
}

PROPERTY("project_bounds", "a point outside its bounds or within 1% of one") {
  c.scale_up(200);
  int n = c.size(1, 5, 300);
  Vec x(n);
  gch::small_vector<std::pair<double, double>> b;
  bool nt = false;
  double k1 = c.coin() ? 1e-2 : c.real(1e-3, 0.3), k2 = c.coin() ? 1e-2 : c.real(1e-3, 0.3);
  for (int i = 0; i < n; ++i) {
    double lo = c.chance(1, 4) ? -INF : gen_mag(c), hi = c.chance(1, 4) ? INF : (std::isinf(lo) ? gen_mag(c) : lo + (c.chance(1, 5) ? 0 : gen_pos(c)));
    if (lo > hi) std::swap(lo, hi);
    b.emplace_back(lo, hi);
    x[i] = c.coin() ? gen_mag(c) : std::isfinite(lo) ? lo + c.real(-0.02, 0.02) : std::isfinite(hi) ? hi + c.real(-0.02, 0.02) : gen_mag(c);
    nt |= x[i] < lo + 0.01 || x[i] > hi - 0.01;
    c.note("x = {} in [{}, {}]", x[i], lo, hi);
  }
  Vec y = x;
  slp::project_onto_bounds(y, std::span<const std::pair<double, double>>{b.data(), b.size()}, k1, k2);
  for (int i = 0; i < n; ++i) {
    auto [lo, hi] = b[i];
    PCHECK(y[i] >= lo && y[i] <= hi, "projected x[{}] = {} outside [{}, {}]", i, y[i], lo, hi);
    LD lim_l = -INF, lim_u = INF;
    if (std::isfinite(lo)) {
      LD p = k1 * std::max<LD>(1, std::abs(lo));
      if (std::isfinite(hi)) p = std::min<LD>(p, k2 * (LD{hi} - lo));
      lim_l = lo + p;
    }
    if (std::isfinite(hi)) {
      LD p = k1 * std::max<LD>(1, std::abs(hi));
      if (std::isfinite(lo)) p = std::min<LD>(p, k2 * (LD{hi} - lo));
      lim_u = hi - p;
    }
    LD want = std::min(std::max(LD{x[i]}, lim_l), lim_u);
    PCHECK(near(y[i], want, std::abs(std::isfinite(lo) ? lo : 0) + std::abs(std::isfinite(hi) ? hi : 0), 1e-12L), "projected x[{}] = {} expected {}", i, y[i], (double)want);
    if (x[i] >= lim_l && x[i] <= lim_u) PCHECK(y[i] == x[i] || near(y[i], x[i], 1, 1e-13L), "moved a point that was inside");
  }
  c.nontrivial(nt);
}

// --- Sparse assembly ----------------------------------------------------------------------------

PROPERTY("triplets", "at least two blocks with entries, at a non-zero offset") {
  c.scale_up(400);
  int k = c.range(1, 5), cols = c.size(1, 4, 100), ro = c.size(0, 3, 100), co = c.size(0, 3, 100);
  std::vector<Mat> ms;
  std::vector<Sp> ss;
  int rows = 0;
  int filled = 0;
  for (int i = 0; i < k; ++i) {
    int r = c.size(0, 3, 60);
    ms.push_back(gen_mat(c, r, cols));
    filled += (ms.back().array() != 0).any();
    ss.push_back(to_sparse(c, ms.back()));
    rows += r;
  }
  gch::small_vector<Eigen::Triplet<double>> t;
  int pre = c.range(0, 1);
  if (pre) t.emplace_back(0, 0, 7.0);
  if (k == 1) slp::append_as_triplets(t, ro, co, {ss[0]});
  else if (k == 2) slp::append_as_triplets(t, ro, co, {ss[0], ss[1]});
  else if (k == 3) slp::append_as_triplets(t, ro, co, {ss[0], ss[1], ss[2]});
  else if (k == 4) slp::append_as_triplets(t, ro, co, {ss[0], ss[1], ss[2], ss[3]});
  else slp::append_as_triplets(t, ro, co, {ss[0], ss[1], ss[2], ss[3], ss[4]});
  Mat want = Mat::Zero(ro + rows + 4, co + cols + 4);
  int at = ro;
  for (auto& m : ms) {
    want.block(at, co, m.rows(), cols) += m;
    at += static_cast<int>(m.rows());
  }
  Mat got = Mat::Zero(want.rows(), want.cols());
  int last_col = -1, last_row = -1;
  for (size_t i = pre; i < t.size(); ++i) {
    PCHECK(t[i].row() >= 0 && t[i].row() < got.rows() && t[i].col() >= 0 && t[i].col() < got.cols(), "triplet out of range");
    PCHECK(t[i].col() > last_col || (t[i].col() == last_col && t[i].row() > last_row), "triplets are not in column-major order");
    last_col = t[i].col();
    last_row = t[i].row();
    got(t[i].row(), t[i].col()) += t[i].value();
  }
  PCHECK(got == want, "stacked matrix differs");
  if (pre) PCHECK(t[0].value() == 7.0, "existing triplet changed");
  Vec d = gen_vec(c, c.size(0, 4, 300));
  size_t before = t.size();
  slp::append_diagonal_as_triplets(t, ro, co, d);
  PCHECK(t.size() == before + d.rows(), "diagonal entries");
  for (int i = 0; i < d.rows(); ++i) {
    auto& e = t[before + i];
    PCHECK(e.row() == ro + i && e.col() == co + i && e.value() == d[i], "diagonal entry {}", i);
  }
  // Row norms and finiteness
  Sp S = to_sparse(c, want);
  Vec nr = slp::sparse_inf_norms(S);
  PCHECK(nr.rows() == want.rows(), "{} row norms", nr.rows());
  for (int i = 0; i < want.rows(); ++i) {
    double w = 0;
    for (int j = 0; j < want.cols(); ++j) w = std::max(w, std::abs(want(i, j)));
    PCHECK(nr[i] == w, "norm of row {} is {} expected {}", i, nr[i], w);
  }
  PCHECK(slp::all_finite(S), "finite matrix reported as not finite");
  if (S.nonZeros() > 0) {
    int hit = static_cast<int>(c.draw(S.nonZeros())), idx = 0;
    double bad = c.pick({INF, -INF, std::nan("")});
    for (int j = 0; j < S.outerSize(); ++j)
      for (Sp::InnerIterator it{S, j}; it; ++it)
        if (idx++ == hit) it.valueRef() = bad;
    PCHECK(!slp::all_finite(S), "matrix with {} reported as finite", bad);
    Eigen::SparseVector<double> sv(3);
    sv.insert(1) = bad;
    PCHECK(!slp::all_finite(sv), "vector with {} reported as finite", bad);
    sv.coeffRef(1) = 1;
    PCHECK(slp::all_finite(sv), "finite vector");
  }
  c.note("{} blocks at ({}, {})", k, ro, co);
  c.nontrivial(filled >= 2 && ro + co > 0);
}
