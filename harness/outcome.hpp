// What a solve of a model.hpp problem did, and what its end promises.
#pragma once

#include <bit>
#include <cstring>

#include "model.hpp"

namespace model {

using slp::ExitStatus;
using Info = slp::IterationInfo<double>;

inline std::string show(const Vec& v) {
  std::string s;
  for (int i = 0; i < v.size(); ++i) s += std::format(" {:.17g}", v[i]);
  return s;
}

/// One iteration as a callback saw it
struct Seen {
  int iteration;
  Vec x, s, y, z, g;
  Mat H, A_e, A_i;
  std::string difference(const Seen& o) const {
    auto eq = [](const auto& a, const auto& b) {
      return a.rows() == b.rows() && a.cols() == b.cols() && std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0;
    };
    std::string d;
    if (iteration != o.iteration) d += std::format("iteration {} {} ", iteration, o.iteration);
    if (!eq(x, o.x)) d += "x ";
    if (!eq(s, o.s)) d += "s ";
    if (!eq(y, o.y)) d += "y ";
    if (!eq(z, o.z)) d += "z ";
    if (!eq(g, o.g)) d += "g ";
    if (!eq(H, o.H)) d += "H ";
    if (!eq(A_e, o.A_e)) d += "A_e ";
    if (!eq(A_i, o.A_i)) d += "A_i ";
    return d;
  }
  bool operator==(const Seen& o) const { return difference(o).empty(); }
};
inline Seen see(const Info& i) {
  return {i.iteration, i.x, i.s, i.y, i.z, Vec(i.g), Mat(i.H), Mat(i.A_e), Mat(i.A_i)};
}

/// min over y, z >= 0 of ‖g − Aₑᵀy − Aᵢᵀz‖² + ‖diag(cᵢ⁺)z‖² (small sizes)
struct Kkt {
  double resid = 0;
  Vec y, z;
};
inline Kkt multipliers(const Vec& g, const Mat& Ae, const Mat& Ai, const Vec& ci) {
  int n = g.size(), ne = Ae.rows(), ni = Ai.rows();
  Kkt best;
  best.resid = 1e300;
  std::vector<int> order;
  uint32_t all = (1u << ni);
  uint32_t guess = 0;
  for (int i = 0; i < ni; ++i)
    if (ci[i] < 1e-4) guess |= 1u << i;
  for (uint32_t t = 0; t <= all; ++t) {
    uint32_t set = t == 0 ? guess : t - 1;
    int k = std::popcount(set);
    Mat A = Mat::Zero(n + ni, ne + k);
    Vec b = Vec::Zero(n + ni);
    b.head(n) = g;
    A.topLeftCorner(n, ne) = Ae.transpose();
    int j = ne;
    for (int i = 0; i < ni; ++i)
      if (set >> i & 1) {
        A.col(j).head(n) = Ai.row(i).transpose();
        A(n + i, j) = std::max(0.0, ci[i]);
        ++j;
      }
    Vec w = A.cols() ? Vec(A.completeOrthogonalDecomposition().solve(b)) : Vec(0);
    Vec yz = Vec::Zero(ne + ni);
    yz.head(ne) = w.head(ne);
    j = ne;
    for (int i = 0; i < ni; ++i)
      if (set >> i & 1) yz[ne + i] = std::max(0.0, w[j++]);
    Vec r(n + ni);
    r.head(n) = g - Ae.transpose() * yz.head(ne) - Ai.transpose() * yz.tail(ni);
    for (int i = 0; i < ni; ++i) r[n + i] = std::max(0.0, ci[i]) * yz[ne + i];
    double v = r.cwiseAbs().maxCoeff();
    if (v < best.resid) best = {v, yz.head(ne), yz.tail(ni)};
    if (t == 0 && v < 1e-9) break;
  }
  return best;
}

/// The end of a solve of a convex problem, with the largest entry of a Hessian seen. False if nothing more is to be expected.
inline bool check_convex(Case& c, const Known& k, const slp::Options& o, ExitStatus s, const Vec& v, double steep) {
  const Model& m = k.m;
  // An exponential can take an iterate to where nothing can be computed
  bool exponential = false;
  for (auto& t : m.f.terms) exponential |= t.phi == EXP;
  for (auto& f : m.in)
    for (auto& t : f.terms) exponential |= t.phi == EXP;
  // Rounding of large costs can keep the error above a small tolerance
  LD fmag = 0;
  m.f.value(k.x.cast<LD>(), &fmag);
  bool reachable = o.tolerance >= 1e-6 && o.tolerance * o.tolerance >= 1e-14 * static_cast<double>(fmag);
  bool stalled = s == ExitStatus::MAX_ITERATIONS_EXCEEDED || s == ExitStatus::LINE_SEARCH_FAILED || s == ExitStatus::FEASIBILITY_RESTORATION_FAILED ||
                 s == ExitStatus::LOCALLY_INFEASIBLE;
  if (exponential && !(steep < 1e12) && s != ExitStatus::SUCCESS) {
    c.label("overflowing exponential");
    return false;
  }
  PCHECK(s == ExitStatus::SUCCESS || (!reachable && stalled), "a convex problem ends with {}", s);
  double err = (v - k.x).cwiseAbs().maxCoeff();
  // Rounding and the barrier leave an error of the order of the tolerance,
  // its square root if a multiplier is zero
  double bound = k.degenerate ? 30 * std::sqrt(o.tolerance) : 1e3 * o.tolerance;
  if (s == ExitStatus::LOCALLY_INFEASIBLE) return false;
  if (s != ExitStatus::SUCCESS) bound = k.degenerate ? 1e-2 : 1e-4;
  PCHECK(err <= bound, "off by {}", err);
  return true;
}

/// What SUCCESS at v promises. False if it can't be judged.
inline bool check_kkt(Case& c, const Model& m, const slp::Options& o, const Vec& v) {
  LVec lv = v.cast<LD>();
  PCHECK(v.allFinite(), "not finite");
  for (auto& e : m.eq) {
    LD mag, r = e.value(lv, &mag);
    PCHECK(std::abs(r) <= o.tolerance * 1.001 + 1e-13 * mag, "equality violated by {}", static_cast<double>(r));
  }
  for (auto& e : m.in) {
    LD mag, r = e.value(lv, &mag);
    PCHECK(r >= -o.tolerance * 1.001 - 1e-13 * mag, "inequality violated by {}", static_cast<double>(-r));
  }
  Mat Ae = m.A_e(lv).cast<double>(), Ai = m.A_i(lv).cast<double>();
  Vec g = m.g(lv).cast<double>(), ci = m.c_i(lv).cast<double>();
  Kkt k = multipliers(g, Ae, Ai, ci);
  double sum = k.y.lpNorm<1>() + k.z.lpNorm<1>();
  double thr = o.tolerance * (30 + 3 * sum) + 1e-12 * g.cwiseAbs().maxCoeff();
  if (k.resid > thr) {
    // Near-dependent active constraints: multipliers are unbounded
    int act = 0;
    for (int i = 0; i < ci.size(); ++i) act += ci[i] < 1e-2;
    Mat A(Ae.rows() + act, m.n);
    A.topRows(Ae.rows()) = Ae;
    for (int i = 0, j = Ae.rows(); i < ci.size(); ++i)
      if (ci[i] < 1e-2) A.row(j++) = Ai.row(i);
    for (int i = 0; i < A.rows(); ++i) A.row(i) /= std::max(1e-12, A.row(i).norm());
    double sig = A.rows() == 0 ? 1 : A.rows() > m.n ? 0 : Eigen::JacobiSVD<Mat>(A).singularValues().minCoeff();
    if (sig < 0.05) {
      c.label("dependent constraints");
      return false;
    }
  }
  PCHECK(k.resid <= thr, "not stationary: residual {} with multipliers{} |{}", k.resid, show(k.y), show(k.z));
  return true;
}

}  // namespace model
