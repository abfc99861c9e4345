// Compiled once per build of the library; slp and model are macros in all but the standard one.
#include "options_side.hpp"

#include <filesystem>

#include "outcome.hpp"

#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
#define SIDE side_projection
#elifdef SLEIPNIR_DISABLE_DIAGNOSTICS
#define SIDE side_nodiagnostics
#else
#define SIDE side_standard
#endif

using namespace model;

namespace {

/// Collects what is printed, in a scratch directory
struct Capture {
  std::filesystem::path old = std::filesystem::current_path(), dir;
  int saved, fd;
  Capture() {
    const char* base = std::getenv("PBT_SCRATCH");
    std::string t = std::string{base ? base : "/tmp"} + "/slpoptXXXXXX";
    dir = mkdtemp(t.data());
    std::filesystem::current_path(dir);
    std::fflush(stdout);
    saved = dup(1);
    fd = memfd_create("out", 0);
    dup2(fd, 1);
  }
  void done(sides::Out& o) {
    std::fflush(stdout);
    off_t n = lseek(fd, 0, SEEK_END);
    o.printed.resize(n);
    lseek(fd, 0, SEEK_SET);
    for (off_t k = 0; k < n;) {
      auto r = read(fd, o.printed.data() + k, n - k);
      if (r <= 0) break;
      k += r;
    }
    for (auto& e : std::filesystem::directory_iterator(dir)) o.files.push_back(e.path().filename());
    std::ranges::sort(o.files);
  }
  ~Capture() {
    std::fflush(stdout);
    dup2(saved, 1);
    close(saved);
    close(fd);
    std::filesystem::current_path(old);
    std::filesystem::remove_all(dir);
  }
};

}  // namespace

sides::Out SIDE(pbt::Case& c, sides::Kind kind) {
  sides::Out out;
  Known k;
  if (kind.convex) k = gen_convex(c, 6, true);
  else k.m = gen_general(c, 4);
  Model& m = k.m;
  // Bounds of variables around the optimum or the initial guess, some of them far away or on one side only
  int more = c.weighted({2, 1}) ? c.range(1, 3) : 0;
  bool fixed = false;  // a variable has equal bounds
  for (int b = 0; b < more; ++b) {
    Fn f(m.n);
    int i = c.range(0, m.n - 1);
    double w = c.pick({1.0, -1.0, 2.0, -0.5, 50.0, -1000.0});
    f.l[i] = w;
    double at = kind.convex ? k.x[i] : m.x0[i];
    double slack = c.pick({0.25, 1.0, 8.0, 1e3}) * c.grid(0.5, 1.5);  // a multiplier near the barrier parameter over this
    if (!kind.convex && c.chance(1, 3)) slack = -c.grid(0, 1);
    f.k = -w * at + std::abs(w) * slack;
    m.in.push_back(f);
    if (c.chance(1, 10)) {
      fixed = true;
      m.in.back().k = -w * at;
      m.in.push_back(negate(m.in.back()));
    }
    if (kind.convex) {
      k.z.conservativeResize(m.in.size());
      k.z[m.in.size() - 1] = 0;
    }
  }
  m.note(c);
  bool plain = c.coin();
  slp::Problem<double> p;
  auto x = build(c, p, m, plain);
  slp::Options o;
  o.tolerance = c.pick({1e-6, 1e-8, 1e-5});
  o.max_iterations = kind.convex ? 5000 : 300;
  o.feasible_ipm = !kind.convex && c.chance(1, 8);
  o.diagnostics = c.chance(1, 4);
  bool spy = c.chance(1, 8);
  double steep = 0;  // the largest entry of the Hessian
  p.add_callback([&](const Info& i) {
    out.steps.push_back({i.iteration, i.x, i.s, i.y, i.z, Vec(i.g), Mat(i.H), Mat(i.A_e), Mat(i.A_i)});
    if (i.H.nonZeros()) steep = std::max(steep, out.steps.back().H.cwiseAbs().maxCoeff());
  });
  ExitStatus s;
  {
    Capture cap;
    s = p.solve(o, spy);
    cap.done(out);
  }
  out.status = std::format("{}", s);
  out.x = values(x);
  out.diagnostics = o.diagnostics;
  out.inequalities = m.in.size();
  out.equalities = m.eq.size();
  for (auto& f : m.eq) out.nonlinear |= !f.linear();
  for (auto& f : m.in) out.nonlinear |= !f.linear();
  c.note("tolerance {}{}{}: {} after {} at{}", o.tolerance, o.diagnostics ? ", diagnostics" : "", spy ? ", spy" : "", s, out.steps.size(), show(out.x));
  // The bounds, as the library should see them
  Vec lower = Vec::Constant(m.n, -INFINITY), upper = Vec::Constant(m.n, INFINITY);
  for (auto& f : m.in) {
    if (!f.linear() || (f.l.array() != 0).count() != 1) continue;
    Eigen::Index i;
    f.l.cwiseAbs().maxCoeff(&i);
    double b = -f.k / f.l[i];
    if (f.l[i] > 0) lower[i] = std::max(lower[i], b);
    else upper[i] = std::min(upper[i], b);
    out.bounded = true;
  }
  if (!kind.judge) return out;
  if (kind.convex) {
    c.note("optimum{}", show(k.x));
    if (fixed) {
      // Unbounded multipliers weaken the stopping criterion, but it's reached
      c.label("equal bounds");
      PCHECK(s == ExitStatus::SUCCESS || o.tolerance < 1e-6 || !(steep < 1e12), "a convex problem with equal bounds of a variable ends with {}", s);
    } else {
      check_convex(c, k, o, s, out.x, steep);
    }
  } else if (s == ExitStatus::SUCCESS) {
    check_kkt(c, m, o, out.x);
  }
#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
  if (!out.steps.empty() && plain) {
    const Vec& x1 = out.steps[0].x;
    for (int i = 0; i < m.n; ++i) {
      double l = lower[i], u = upper[i];
      if (m.in.empty() || !(l <= u)) continue;
      PCHECK(x1[i] >= l && x1[i] <= u && (l == u || (x1[i] > l && x1[i] < u)), "the first iterate{} is not inside the bounds [{}, {}] of x{}", show(x1), l, u, i);
      // A guess well inside the bounds stays, and one outside moves to the nearest of them
      double al = std::max(1.0, std::abs(l)), au = std::max(1.0, std::abs(u));
      bool inside = (!std::isfinite(l) || m.x0[i] >= l + 0.011 * al) && (!std::isfinite(u) || m.x0[i] <= u - 0.011 * au);
      if (inside) PCHECK(x1[i] == m.x0[i], "x{} = {} inside the bounds [{}, {}] starts at {}", i, m.x0[i], l, u, x1[i]);
      else if (m.x0[i] <= l) PCHECK(x1[i] <= l + 0.011 * al, "x{} = {} below the bounds [{}, {}] starts at {}", i, m.x0[i], l, u, x1[i]);
      else if (m.x0[i] >= u) PCHECK(x1[i] >= u - 0.011 * au, "x{} = {} above the bounds [{}, {}] starts at {}", i, m.x0[i], l, u, x1[i]);
    }
  }
#endif
  return out;
}
