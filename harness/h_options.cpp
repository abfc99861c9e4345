// P41: the library as it is built with its compile-time options
#include <cstring>

#include "options_side.hpp"

using pbt::Case;
using sides::Out;

namespace {

std::string show(const Eigen::VectorXd& v) {
  std::string s;
  for (int i = 0; i < v.size(); ++i) s += std::format(" {:.17g}", v[i]);
  return s;
}

template <typename T>
bool same(const T& a, const T& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}

/// The number of iterations before feasibility restoration, which the callbacks may see nothing of but the iterations it took
size_t plain_steps(const Out& a) {
  size_t k = 0;
  while (k < a.steps.size() && a.steps[k].x.size() == a.x.size() && a.steps[k].iteration == static_cast<int>(k)) ++k;
  return k;
}

/// until: compare only so many iterations
void same_run(Out a, Out b, const char* what, size_t until = -1) {
  if (until < a.steps.size() || until < b.steps.size()) {
    // Only if one of them is in restoration from there on
    PCHECK((until == a.steps.size() || plain_steps(a) == until) && (until == b.steps.size() || plain_steps(b) == until) &&
               (plain_steps(a) < a.steps.size() || plain_steps(b) < b.steps.size()),
           "{}: {} instead of {} iterations (restoration from {}, {})", what, b.steps.size(), a.steps.size(), plain_steps(b), plain_steps(a));
    a.steps.resize(until);
    b.steps.resize(until);
    b.status = a.status;
    b.x = a.x;
  }
  PCHECK(a.status == b.status, "{}: {} instead of {}", what, b.status, a.status);
  PCHECK(a.steps.size() == b.steps.size(), "{}: {} instead of {} iterations (restoration from {}, {})", what, b.steps.size(), a.steps.size(), plain_steps(b), plain_steps(a));
  for (size_t k = 0; k < a.steps.size(); ++k) {
    auto &s = a.steps[k], &t = b.steps[k];
    PCHECK(s.iteration == t.iteration, "{}: iteration {} instead of {}", what, t.iteration, s.iteration);
    PCHECK(same(s.x, t.x), "{}: iterate {} at{} instead of{}", what, k, show(t.x), show(s.x));
    PCHECK(same(s.s, t.s) && same(s.y, t.y) && same(s.z, t.z), "{}: slacks or multipliers of iteration {}", what, k);
    PCHECK(same(s.g, t.g) && same(s.H, t.H) && same(s.A_e, t.A_e) && same(s.A_i, t.A_i), "{}: derivatives of iteration {}", what, k);
  }
  PCHECK(same(a.x, b.x), "{}: solution{} instead of{}", what, show(b.x), show(a.x));
}

}  // namespace

PROPERTY("without_diagnostics", "at least two iterations, with constraints") {
  sides::Kind kind{.convex = c.coin(), .judge = false};
  Case d = c.twin();
  Out b = side_nodiagnostics(d, kind);
  Out a = side_standard(c, kind);
  same_run(a, b, "build without diagnostics");
  if (!a.diagnostics) PCHECK(a.printed.empty() && b.printed.empty(), "printed without being asked: {}{}", a.printed, b.printed);
  PCHECK(b.files.empty(), "spy files in a build without diagnostics");
  c.label(a.status);
  if (a.diagnostics) c.label("diagnostics");
  if (!a.files.empty()) c.label("spy");
  c.nontrivial(a.steps.size() >= 2 && (a.inequalities || a.equalities));
}

PROPERTY("bound_projection", "at least two iterations, with bounds of variables") {
  sides::Kind kind{.convex = c.coin(), .judge = true};
  Case d = c.twin();
  kind.judge = false;
  Out a = side_standard(d, kind);
  kind.judge = true;
  Out b = side_projection(c, kind);
  // Without bounds there is nothing to project onto
  if (!b.bounded) same_run(a, b, "build with bound projection, without bounds", std::min(plain_steps(a), plain_steps(b)));  // restoration has bounds of its own
    for (auto refusal : {"too few degrees of freedom", "globally infeasible"}) PCHECK((a.status == refusal) == (b.status == refusal), "build with bound projection: {} instead of {}", b.status, a.status);
  PCHECK(a.files == b.files, "other files");
  if (!b.diagnostics) PCHECK(b.printed.empty(), "printed without being asked");
  c.label(b.status);
  c.nontrivial(b.steps.size() >= 2 && b.bounded);
}
