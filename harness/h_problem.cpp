// P14-P22: solving problems
#include <sleipnir/optimization/multistart.hpp>

#include <malloc.h>

#include <atomic>
#include <bit>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>

#include "outcome.hpp"

using namespace model;
using slp::ExitStatus;

namespace {

std::string types(const Model& m) {
  return m.in.size() ? "ipm" : m.eq.size() ? "sqp" : "newton";
}

double scale(const LVec& g) {
  LD n = g.size() ? g.cwiseAbs().maxCoeff() : 0;
  return n > 100 ? static_cast<double>(100 / n) : 1.0;
}

ExitStatus solve(Case& c, slp::Problem<double>& p, const slp::Options& o) {
  auto s = p.solve(o);
  c.label(std::format("{}", s));
  return s;
}

}  // namespace

PROPERTY("convex_optimum", "an inequality is active at the optimum with a positive multiplier, or at least two variables and an equality") {
  bool big = c.chance(1, 40);
  c.scale_up(1500);
  Known k = gen_convex(c, big ? 24 : 6, true);
  Model& m = k.m;
  m.note(c);
  slp::Problem<double> p;
  auto x = build(c, p, m);
  slp::Options o;
  o.tolerance = c.pick({1e-6, 1e-8, 1e-5, 1e-7});
  double steep = 0;  // the largest entry of the Hessian
  p.add_callback([&](const Info& i) {
    for (int k = 0; k < i.H.outerSize(); ++k)
      for (Eigen::SparseMatrix<double>::InnerIterator it(i.H, k); it; ++it) steep = std::max(steep, std::abs(it.value()));
  });
  auto s = solve(c, p, o);
  Vec v = values(x);
  c.note("tolerance {}: {} at{}, optimum{}", o.tolerance, s, show(v), show(k.x));
  if (!check_convex(c, k, o, s, v, steep)) return;
  c.nontrivial((k.z.size() && k.z.maxCoeff() > 0) || (m.n > 1 && m.eq.size()));
}

PROPERTY("success_is_kkt", "SUCCESS on a problem with a nonlinear constraint or a cost that is not convex") {
  Model m = gen_general(c, 5);
  m.note(c);
  slp::Problem<double> p;
  auto x = build(c, p, m);
  slp::Options o;
  o.tolerance = c.pick({1e-8, 1e-6, 1e-4});
  o.max_iterations = 300;
  o.feasible_ipm = c.chance(1, 8);
  auto s = solve(c, p, o);
  Vec v = values(x);
  c.note("tolerance {}: {} at{}", o.tolerance, s, show(v));
  if (s != ExitStatus::SUCCESS) return;
  if (!check_kkt(c, m, o, v)) return;
  bool nl = false;
  for (auto& e : m.eq) nl |= !e.linear();
  for (auto& e : m.in) nl |= !e.linear();
  for (auto& t : m.f.terms) nl |= t.phi == SIN;
  c.nontrivial(nl);
}


namespace {

struct Run {
  ExitStatus status;
  std::vector<Seen> seen;
  Vec x;
};
using Hook = std::function<bool(const Info&)>;

/// Solves and records what the callbacks see; stop may end the solve
template <typename P>
Run record(P& p, std::vector<V>& x, const slp::Options& o, Hook stop = {}, bool spy = false) {
  Run r;
  // Uninitialized memory differs from run to run
  static int fill = 0x55;
  mallopt(M_PERTURB, fill ^= 0xff);
  p.clear_callbacks();
  p.add_callback([&](const Info& i) -> bool {
    r.seen.push_back(see(i));
    return stop ? stop(i) : false;
  });
  r.status = p.solve(o, spy);
  p.clear_callbacks();
  r.x = values(x);
  return r;
}
Run record(Case& c, const Model& m, const slp::Options& o, Hook stop = {}) {
  slp::Problem<double> p;
  auto x = build(c, p, m, true);
  return record(p, x, o, stop);
}

bool same(const Vec& a, const Vec& b) {
  return a.size() == b.size() && std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0;
}
bool has_restoration(const Run& r, int n, size_t upto) {
  for (size_t i = 0; i < upto && i < r.seen.size(); ++i)
    if (r.seen[i].x.size() != n) return true;
  return false;
}
void same_run(const Run& a, const Run& b, const char* what) {
  PCHECK(a.status == b.status, "{}: {} versus {}", what, a.status, b.status);
  PCHECK(a.seen.size() == b.seen.size(), "{}: {} versus {} iterations", what, a.seen.size(), b.seen.size());
  for (size_t i = 0; i < a.seen.size(); ++i)
    PCHECK(a.seen[i] == b.seen[i], "{}: iteration {} differs ({}): at{} versus{}", what, i, a.seen[i].difference(b.seen[i]), show(a.seen[i].x) + " |" + show(a.seen[i].y), show(b.seen[i].x) + " |" + show(b.seen[i].y));
  PCHECK(same(a.x, b.x), "{}: solution{} versus{}", what, show(a.x), show(b.x));
}

/// Standard output goes nowhere while this lives
struct Quiet {
  int saved;
  Quiet() {
    std::fflush(stdout);
    saved = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Quiet() {
    std::fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};

/// A scratch working directory
struct Scratch {
  std::filesystem::path old, dir;
  Scratch() : old{std::filesystem::current_path()} {
    const char* base = std::getenv("PBT_SCRATCH");
    std::string t = std::string{base ? base : "/tmp"} + "/slpspyXXXXXX";
    dir = mkdtemp(t.data());
    std::filesystem::current_path(dir);
  }
  ~Scratch() {
    std::filesystem::current_path(old);
    std::filesystem::remove_all(dir);
  }
};

}  // namespace

PROPERTY("stopping", "the limited run stops in the middle of the unlimited one, after at least two iterations") {
  Model m = gen_general(c, 4);
  m.note(c);
  slp::Options o;
  o.tolerance = c.pick({1e-8, 1e-5});
  o.max_iterations = 80;
  Run base = record(c, m, o);
  int N = base.seen.size();
  int n = m.n;
  c.note("alone: {} after {} iterations at{}", base.status, N, show(base.x));
  PCHECK(base.status != ExitStatus::TIMEOUT && base.status != ExitStatus::CALLBACK_REQUESTED_STOP, "{} without being asked", base.status);
  // Feasibility restoration starts with the number of the iteration it is part of
  for (int i = 0; i < N; ++i) PCHECK(base.seen[i].iteration < o.max_iterations && (i == 0 || base.seen[i].iteration >= base.seen[i - 1].iteration), "callback {} sees iteration {}", i, base.seen[i].iteration);
  if (base.status == ExitStatus::MAX_ITERATIONS_EXCEEDED && !has_restoration(base, n, N)) PCHECK(N == o.max_iterations, "{} after {} of {}", base.status, N, o.max_iterations);
  if (!has_restoration(base, n, N))
    for (int i = 0; i < N; ++i) PCHECK(base.seen[i].iteration == i, "iteration {} reported as {}", i, base.seen[i].iteration);
  else
    c.label("restoration");
  if (N == 0) {
    PCHECK(same(base.x, m.x0), "no iteration, but x changed to{}", show(base.x));
    return;
  }
  PCHECK(same(base.seen[0].x, m.x0), "does not start at the initial guess");
  auto prefix = [&](const Run& r, const char* what) {
    PCHECK(static_cast<int>(r.seen.size()) <= N, "{}: more iterations", what);
    for (size_t i = 0; i < r.seen.size(); ++i) PCHECK(r.seen[i] == base.seen[i], "{}: iteration {} differs", what, i);
  };
  int mode = c.weighted({4, 4, 2, 1});
  if (mode == 0) {
    int k = c.range(1, std::min(N + 3, o.max_iterations));
    c.note("max_iterations {}", k);
    slp::Options q = o;
    q.max_iterations = k;
    Run r = record(c, m, q);
    prefix(r, "max_iterations");
    int R = r.seen.size();
    c.note("{} after {} at{}", r.status, R, show(r.x));
    for (auto& s : r.seen) PCHECK(s.iteration < k, "iteration {} with max_iterations {}", s.iteration, k);
    if (k < N && !has_restoration(base, n, k + 1)) {
      PCHECK(r.status == ExitStatus::MAX_ITERATIONS_EXCEEDED, "{} at iteration {} of {}", r.status, k, N);
      PCHECK(R == k, "stopped after {} iterations", R);
      PCHECK(same(r.x, base.seen[k].x), "returned{} instead of the current iterate{}", show(r.x), show(base.seen[k].x));
      c.nontrivial(k >= 2);
    } else if (k > N || k == o.max_iterations) {
      same_run(base, r, "larger max_iterations");
    } else if (k <= base.seen.back().iteration) {
      PCHECK(r.status == ExitStatus::MAX_ITERATIONS_EXCEEDED || r.status == ExitStatus::FEASIBILITY_RESTORATION_FAILED, "{} at iteration {} of {}", r.status, k, N);
    }
  } else if (mode == 1) {
    int j = c.range(0, N - 1);
    c.note("stop at callback {}", j);
    int count = 0;
    Run r = record(c, m, o, [&](const Info&) { return count++ == j; });
    prefix(r, "stop");
    PCHECK(r.status == ExitStatus::CALLBACK_REQUESTED_STOP, "{}", r.status);
    PCHECK(static_cast<int>(r.seen.size()) == j + 1, "{} callbacks", r.seen.size());
    PCHECK(same(r.x, base.seen[j].x.head(n)), "returned{} instead of the current iterate{}", show(r.x), show(base.seen[j].x));
    c.nontrivial(j >= 2);
    if (base.seen[j].x.size() != n) c.label("stop in restoration");
  } else if (mode == 2) {
    slp::Options q = o;
    q.timeout = std::chrono::duration<double>(0);
    Run r = record(c, m, q);
    prefix(r, "timeout");
    c.note("{} after {}", r.status, r.seen.size());
    if (!has_restoration(base, n, 2)) {
      PCHECK(r.seen.size() == 1, "{} iterations with timeout 0", r.seen.size());
      if (N >= 2) {
        PCHECK(r.status == ExitStatus::TIMEOUT, "{} with timeout 0", r.status);
        PCHECK(same(r.x, base.seen[1].x), "returned{}", show(r.x));
        c.nontrivial();
      }
    }
  } else if (c.chance(1, 12)) {
    bool short_one = c.coin();
    slp::Options q = o;
    q.timeout = std::chrono::duration<double>(short_one ? 0.004 : 20.0);
    int j = c.range(0, N - 1), count = 0;
    c.note("timeout {} with a sleep in callback {}", q.timeout, j);
    Run r = record(c, m, q, [&](const Info&) {
      if (count++ == j) usleep(8000);
      return false;
    });
    prefix(r, "timeout");
    c.note("{} after {}", r.status, r.seen.size());
    if (short_one) {
      PCHECK(static_cast<int>(r.seen.size()) <= j + 1 || has_restoration(base, n, N), "went on after the timeout");
      if (j + 1 < N && !has_restoration(base, n, N)) {
        PCHECK(r.status == ExitStatus::TIMEOUT, "{}", r.status);
        c.nontrivial(j >= 1);
      }
    } else {
      same_run(base, r, "long timeout");
      c.nontrivial(N >= 2);
    }
  }
}

PROPERTY("refusals", "the problem is refused, or would be if not for one small difference") {
  slp::Problem<double> p;
  slp::Options o;
  o.max_iterations = 200;
  int calls = 0;
  p.add_callback([&](const Info&) { ++calls; });
  int mode = c.weighted({3, 4, 3, 3, 3, 3});
  Model m = gen_general(c, mode == 0 ? 3 : 4);
  int n = m.n;
  auto refused = [&](std::vector<V>& x, ExitStatus want) {
    auto s = solve(c, p, o);
    PCHECK(s == want, "{} instead of {}", s, want);
    PCHECK(calls == 0, "callbacks were called");
    PCHECK(same(values(x), m.x0), "x changed to{}", show(values(x)));
    c.nontrivial();
  };
  if (mode == 0) {
    // More (or not) equality constraints than variables
    int ne = c.range(n, n + 2);
    m.eq.clear();
    for (int i = 0; i < ne; ++i) {
      Fn f(n);
      f.l = gen_dir(c, n);
      f.k = -f.l.dot(m.x0) + (c.chance(1, 3) ? 1 : 0);
      m.eq.push_back(f);
    }
    m.note(c);
    auto x = build(c, p, m);
    // bounds of the same variable may contradict each other; leave those out
    for (auto& f : m.in)
      if (f.linear()) return;
    if (ne > n) {
      refused(x, ExitStatus::TOO_FEW_DOFS);
    } else {
      auto s = solve(c, p, o);
      PCHECK(s != ExitStatus::TOO_FEW_DOFS, "{} with {} equality constraints of {} variables", s, ne, n);
      c.nontrivial();
    }
  } else if (mode == 1) {
    // One function is not finite, or has derivatives that are not
    auto x = build(c, p, m);
    m.note(c);
    int i = c.range(0, n - 1), where = c.range(0, 2), how = c.range(0, 5);
    double v = c.pick({0.0, -1.0, 1.0});
    if (where == 1 && static_cast<int>(m.eq.size()) >= n) where = 2;
    V u = x[i] - (m.x0[i] - v);
    bool bad = false;
    V e;
    switch (how) {
      case 0: e = slp::log(u); bad = v <= 0; break;
      case 1: e = slp::sqrt(u); bad = v <= 0; break;
      case 2: e = 1.0 / u; bad = v == 0; break;
      case 3: e = slp::pow(u, 1.5); bad = v <= 0; break;
      case 4: e = slp::asin(u); bad = v != 0; break;
      default: e = slp::exp(1000.0 * u); bad = v == 1.0; break;
    }
    e = e + c.grid(-1, 1);
    c.note("and a {} with function {} of x{} with argument {}", where == 0 ? "cost" : where == 1 ? "equality" : "inequality", how, i, v);
    if (where == 0) p.minimize(e);
    else if (where == 1) p.subject_to(e == 0.5);
    else p.subject_to(e >= 0.5);
    if (bad) {
      refused(x, ExitStatus::NONFINITE_INITIAL_GUESS);
    } else {
      auto s = solve(c, p, o);
      PCHECK(s != ExitStatus::NONFINITE_INITIAL_GUESS, "{}", s);
      c.nontrivial();
    }
  } else if (mode == 2) {
    // Contradictory (or not) bounds of one variable
    int i = c.range(0, n - 1);
    double lo = c.grid(-3, 3), gap = c.pick({0.5, 0.0, -0.0009765625, -1.0, 2.0}), a = c.pick({1.0, 2.0, -1.0, -0.5}), b = c.pick({1.0, -4.0});
    m.in.clear();
    auto x = build(c, p, m);
    m.note(c);
    c.note("and x{} in [{}, {}]", i, lo, lo + gap);
    if (a > 0) p.subject_to(a * x[i] >= a * lo);
    else p.subject_to(a * x[i] <= a * lo);
    if (c.coin()) p.subject_to(x[(i + 1) % n] >= -100.0);
    if (b > 0) p.subject_to(b * x[i] <= b * (lo + gap));
    else p.subject_to(b * x[i] >= b * (lo + gap));
    if (gap < 0) {
      refused(x, ExitStatus::GLOBALLY_INFEASIBLE);
    } else {
      auto s = solve(c, p, o);
      PCHECK(s != ExitStatus::GLOBALLY_INFEASIBLE, "{}", s);
      c.nontrivial();
    }
  } else if (mode == 3) {
    // No variable matters
    auto x = decision_variables(c, p, n);
    for (int i = 0; i < n; ++i) x[i].set_value(m.x0[i]);
    bool ok = true;
    if (c.coin()) p.minimize(V{c.grid(-2, 2)});
    int k = c.range(0, 3);
    for (int i = 0; i < k; ++i) {
      double a = c.range(-1, 1), b = c.range(-1, 1);
      c.note("{} and {}", a, b);
      switch (c.range(0, 2)) {
        case 0: p.subject_to(V{a} == V{b}); ok &= a == b; break;
        case 1: p.subject_to(V{a} >= b); ok &= a >= b; break;
        default: p.subject_to(a <= V{b}); ok &= a <= b; break;
      }
    }
    refused(x, ok ? ExitStatus::SUCCESS : ExitStatus::GLOBALLY_INFEASIBLE);
  } else if (mode == 4) {
    // Infeasible: a positive combination of constraints is contradictory
    m.eq.clear();
    m.in.clear();
    if (c.coin() && n >= 2) {
      Fn ball(n), far(n);
      for (int i = 0; i < n; ++i) {
        Vec a = Vec::Zero(n);
        a[i] = 1;
        ball.terms.push_back({SQ, -1.0, a, 0});
      }
      double r = c.grid(0.1, 2);
      ball.k = r * r;
      far.l = gen_dir(c, n);
      far.k = -far.l.norm() * (r + c.grid(0.1, 2));
      m.in = {ball};
      (c.coin() ? m.in : m.eq).push_back(far);
    } else {
      int k = c.range(2, 4);
      Fn sum(n);
      for (int i = 0; i + 1 < k; ++i) {
        Fn f(n);
        f.l = gen_dir(c, n);
        f.k = c.grid(-2, 2);
        double w = c.pick({1.0, 0.5, 2.0});
        sum.l -= w * f.l;
        sum.k -= w * f.k;
        m.in.push_back(f);
      }
      if (sum.l.isZero()) return;
      sum.k -= c.grid(0.05, 2);
      m.in.push_back(sum);
    }
    m.note(c);
    auto x = build(c, p, m);
    auto s = solve(c, p, o);
    PCHECK(s != ExitStatus::SUCCESS, "infeasible, but{}", show(values(x)));
    c.nontrivial();
  } else {
    // Unbounded below
    m.f = Fn(n);
    m.eq.clear();
    m.in.clear();
    m.f.l = gen_dir(c, n);
    m.has_cost = true;
    Vec d = -m.f.l;  // direction of recession
    int k = c.range(0, 3);
    for (int i = 0; i < k; ++i) {
      Fn f(n);
      f.l = gen_dir(c, n);
      if (f.l.dot(d) < 0) f.l = -f.l;
      f.k = c.grid(-2, 2);
      m.in.push_back(f);
    }
    m.note(c);
    auto x = build(c, p, m);
    auto s = solve(c, p, o);
    PCHECK(s != ExitStatus::SUCCESS, "unbounded, but{}", show(values(x)));
    c.nontrivial();
  }
}

// One statement of several constraints: as a vector or as a list in braces,
// flat or nested
template <typename Constraints>
Constraints listed(Case& c, const std::vector<Constraints>& l) {
  if (!c.chance(3, 5)) return Constraints{l};
  size_t k = l.size();
  if (k == 1) return Constraints{{l[0]}};
  bool nest = c.coin();
  if (k == 2) return nest ? Constraints{Constraints{l}, Constraints{std::vector<Constraints>{}}} : Constraints{l[0], l[1]};
  if (k == 3) return nest ? Constraints{Constraints{l[0], l[1]}, l[2]} : Constraints{l[0], l[1], l[2]};
  Constraints rest{std::vector<Constraints>(l.begin() + 3, l.end())};
  return nest ? Constraints{l[0], Constraints{l[1], l[2]}, rest} : Constraints{l[0], l[1], l[2], rest};
}

PROPERTY("equivalent_statements", "at least three iterations and at least two differences of statement") {
  Model m = gen_general(c, 4);
  m.note(c);
  slp::Options o;
  o.max_iterations = 60;
  o.feasible_ipm = c.chance(1, 6);
  // As plain as possible
  slp::Problem<double> p;
  std::vector<V> x;
  for (int i = 0; i < m.n; ++i) x.push_back(p.decision_variable());
  for (int i = 0; i < m.n; ++i) x[i].set_value(m.x0[i]);
  {
    Speller sp{c, x, nullptr, true};
    if (m.has_cost) p.minimize(sp.fn(m.f));
    for (auto& e : m.eq) p.subject_to(sp.fn(e) == 0.0);
    for (auto& e : m.in) p.subject_to(sp.fn(e) >= 0.0);
  }
  Run a = record(p, x, o);
  // The same in other words, with the same arithmetic
  slp::Problem<double> q;
  std::vector<V> y = decision_variables(c, q, m.n);
  for (int i = 0; i < m.n; ++i) y[i].set_value(m.x0[i]);
  Speller sp{c, y, nullptr, true};
  int changes = 0;
  // 0: cost, 1: next equality, 2: next inequality
  std::vector<int> order;
  size_t ie = 0, ii = 0;
  bool cost_done = !m.has_cost;
  std::vector<V> keep;
  while (!cost_done || ie < m.eq.size() || ii < m.in.size()) {
    std::vector<int> can;
    if (!cost_done) can.push_back(0);
    if (ie < m.eq.size()) can.push_back(1);
    if (ii < m.in.size()) can.push_back(2);
    int what = c.pick(can);
    if (what != can[0]) ++changes;
    if (what == 0) {
      cost_done = true;
      int form = c.range(0, 3);
      changes += form > 0;
      V f = sp.fn(m.f);
      if (form == 0) q.minimize(f);
      else if (form == 1) q.maximize(-f);
      else if (form == 2) { V g = -f; q.maximize(g); }
      else { q.minimize(V{17.0} * y[0]); q.minimize(std::move(f)); }
      continue;
    }
    auto& list = what == 1 ? m.eq : m.in;
    size_t& at = what == 1 ? ie : ii;
    int k = c.range(1, static_cast<int>(list.size() - at));
    int form = c.range(0, 5);
    changes += form > 0;
    c.note("{} {} constraints in form {}", k, what == 1 ? "equality" : "inequality", form);
    std::vector<V> e;
    for (int j = 0; j < k; ++j) e.push_back(sp.fn(list[at + j]));
    at += k;
    if (what == 1) {
      if (form == 0) for (auto& v : e) q.subject_to(v == 0.0);
      else if (form == 1) for (auto& v : e) { auto h = v == V{0.0}; q.subject_to(h); }
      else if (form == 2) { VM w(k, 1); for (int j = 0; j < k; ++j) w[j] = e[j]; q.subject_to(w == Vec::Zero(k)); }
      else if (form == 3) { VM w(1, k); for (int j = 0; j < k; ++j) w[0, j] = e[j]; q.subject_to(w == 0.0); }
      else if (form == 4) {
        std::vector<slp::EqualityConstraints<double>> l;
        for (auto& v : e) l.push_back(v == 0.0);
        q.subject_to(listed(c, l));
      } else {
        VM w(2, k);
        for (int j = 0; j < k; ++j) w[1, j] = e[j];
        q.subject_to(w.row(1) == Mat::Zero(1, k));
      }
    } else {
      if (form == 0) for (auto& v : e) q.subject_to(v > 0.0);
      else if (form == 1) for (auto& v : e) q.subject_to(0.0 <= v);
      else if (form == 2) { VM w(k, 1); for (int j = 0; j < k; ++j) w[j] = e[j]; q.subject_to(w >= Vec::Zero(k)); }
      else if (form == 3) { VM w(1, k); for (int j = 0; j < k; ++j) w[0, j] = e[j]; q.subject_to(0.0 < w); }
      else if (form == 4) {
        std::vector<slp::InequalityConstraints<double>> l;
        for (auto& v : e) l.push_back(v >= V{0.0});
        q.subject_to(listed(c, l));
      } else {
        VM w(2, k);
        for (int j = 0; j < k; ++j) w[1, j] = e[j];
        q.subject_to(Mat::Zero(1, k) <= w.row(1));
      }
    }
  }
  Run b = record(q, y, o);
  c.note("{} after {} at{}", a.status, a.seen.size(), show(a.x));
  same_run(a, b, "the other statement");
  c.nontrivial(a.seen.size() >= 3 && changes >= 2);
}

PROPERTY("callback_info", "at least three iterations with a nonlinear constraint or a scaled function") {
  Model m = gen_general(c, 5);
  m.note(c);
  slp::Options o;
  o.max_iterations = 40;
  o.feasible_ipm = c.chance(1, 8);
  slp::Problem<double> p;
  auto x = build(c, p, m, true);
  int n = m.n;
  int ne = m.eq.size(), ni = m.in.size();
  LVec x0 = m.x0.cast<LD>();
  double df = scale(m.g(x0));
  Vec de(ne), di(ni);
  for (int i = 0; i < ne; ++i) de[i] = scale(m.eq[i].grad(x0));
  for (int i = 0; i < ni; ++i) di[i] = scale(m.in[i].grad(x0));
  // If the scale is not certain, take it from the first iteration
  Vec last = m.x0;
  int normal = 0, order = 0, next = 0;
  std::string error;
  auto fail = [&](std::string s) {
    if (error.empty()) error = std::move(s);
  };
  auto close = [&](const char* what, const LMat& want, const Mat& got, double mag) {
    if (want.rows() != got.rows() || want.cols() != got.cols()) return fail(std::format("{} is {}x{}", what, got.rows(), got.cols()));
    for (int i = 0; i < want.rows(); ++i)
      for (int j = 0; j < want.cols(); ++j) {
        double w = static_cast<double>(want(i, j));
        if (!(std::abs(w - got(i, j)) <= 1e-9 * (mag + std::abs(w)))) return fail(std::format("{}({}, {}) is {} instead of {} at{}", what, i, j, got(i, j), w, show(last)));
      }
  };
  // Callbacks are called once per iteration, those of a kind in the order added
  int nonper = c.range(0, 2), per = c.range(0, 2);
  std::vector<std::pair<bool, int>> log;
  bool clear_first = c.chance(1, 4);
  if (clear_first) {
    p.add_callback([&](const Info&) { fail("a cleared callback was called"); });
    p.add_callback([&](const Info&) { fail("a cleared callback was called"); return true; });
  }
  bool pfirst = c.coin();
  auto add_per = [&] {
    for (int k = 0; k < per; ++k) p.add_persistent_callback([&log, k](const Info&) { log.push_back({true, k}); return false; });
  };
  if (pfirst) add_per();
  if (clear_first) p.clear_callbacks();
  for (int k = 0; k < nonper; ++k) {
    if (c.coin()) p.add_callback([&log, k](const Info&) { log.push_back({false, k}); });
    else p.add_callback([&log, k](const Info&) { log.push_back({false, k}); return false; });
  }
  int total = 0;
  p.add_callback([&](const Info& i) {
    ++total;
    if (i.x.size() != n) return;  // feasibility restoration: another problem
    if (i.iteration < next) fail(std::format("iteration {} after {}", i.iteration, next));
    next = i.iteration + 1;
    last = i.x;
    if (i.s.size() != ni || i.z.size() != ni || i.y.size() != ne) return fail("sizes of s, y, z");
    if (ni && (i.s.minCoeff() <= 0 || i.z.minCoeff() <= 0)) fail("slacks or their duals are not positive");
    LVec lx = i.x.cast<LD>();
    if (lx.cwiseAbs().maxCoeff() > 50) return;
    ++normal;
    LVec g = static_cast<LD>(df) * m.g(lx);
    LVec y = i.y.cast<LD>().cwiseProduct(de.cast<LD>()), z = i.z.cast<LD>().cwiseProduct(di.cast<LD>());
    LMat Ae = de.cast<LD>().asDiagonal() * m.A_e(lx), Ai = di.cast<LD>().asDiagonal() * m.A_i(lx);
    LMat H = LMat::Zero(n, n);
    double hmag = 1;
    auto add = [&](LD w, const Fn& f) {
      for (auto& t : f.terms) {
        Fn one(n);
        one.terms = {t};
        LMat h = w * one.hess(lx);
        // (the second derivative of log(cosh) comes from a difference)
        hmag += static_cast<double>(h.cwiseAbs().maxCoeff() + std::abs(w * t.w) * t.a.cwiseAbs2().maxCoeff());
        H += h;
      }
      Fn b(n);
      b.bil = f.bil;
      LMat h = w * b.hess(lx);
      hmag += static_cast<double>(h.cwiseAbs().maxCoeff());
      H += h;
    };
    if (m.has_cost) add(df, m.f);
    for (int k = 0; k < ne; ++k) add(-y[k], m.eq[k]);
    for (int k = 0; k < ni; ++k) add(-z[k], m.in[k]);
    // magnitudes of the terms that may cancel
    double gmag = 1;
    for (auto& t : m.f.terms) { Fn one(n); one.terms = {t}; gmag += df * static_cast<double>(one.grad(lx).cwiseAbs().maxCoeff()); }
    double amag = 1;
    for (auto* l : {&m.eq, &m.in})
      for (auto& f : *l)
        for (auto& t : f.terms) { Fn one(n); one.terms = {t}; amag += static_cast<double>(one.grad(lx).cwiseAbs().maxCoeff()); }
    close("g", g, i.g.rows() == n ? Mat(Vec(i.g)) : Mat(0, 0), gmag);
    close("H", LMat(H.triangularView<Eigen::Lower>()), Mat(i.H), hmag);
    if (ne || i.A_e.rows()) close("A_e", Ae, Mat(i.A_e), amag);
    if (ni || i.A_i.rows()) close("A_i", Ai, Mat(i.A_i), amag);
  });
  if (!pfirst) add_per();
  auto s = solve(c, p, o);
  c.note("{}", s);
  PCHECK(error.empty(), "{}", error);
  PCHECK(static_cast<int>(log.size()) == total * (nonper + per), "{} calls in {} iterations of {} callbacks", log.size(), total, nonper + per);
  for (int t = 0; t < total; ++t) {
    std::vector<int> a, b;
    for (int k = 0; k < nonper + per; ++k) {
      auto [persistent, id] = log[t * (nonper + per) + k];
      (persistent ? b : a).push_back(id);
    }
    PCHECK(std::ranges::is_sorted(a) && static_cast<int>(a.size()) == nonper, "order of the callbacks");
    PCHECK(std::ranges::is_sorted(b) && static_cast<int>(b.size()) == per, "order of the persistent callbacks");
  }
  bool nl = df < 1;
  for (auto* l : {&m.eq, &m.in})
    for (auto& f : *l) nl |= !f.linear();
  if (ne) nl |= de.minCoeff() < 1;
  if (ni) nl |= di.minCoeff() < 1;
  c.nontrivial(normal >= 3 && nl);
}

namespace {
/// Parts of a problem that are stated one after another
struct Part {
  int kind;  // 0 cost, 1 equality, 2 inequality
  Fn f;
};
/// One statement, with a parameter as the constant term
void state(slp::Problem<double>& p, std::vector<V>& x, const Part& part, V& param, Case& c) {
  Speller sp{c, x, nullptr, true};
  Fn f = part.f;
  f.k = 0;
  V e = sp.fn(f) + param;
  // the parameter also multiplies something
  e = e + 0.125 * param * x[0];
  if (part.kind == 0) p.minimize(e);
  else if (part.kind == 1) p.subject_to(e == 0.0);
  else p.subject_to(e >= 0.0);
}
}  // namespace

namespace {
struct Thrown {
  int at;
};
}  // namespace

PROPERTY("resolve_history", "at least three solves, at least two of them with iterations, after a change of a parameter or a statement") {
  Model m = gen_general(c, 3, nullptr, false);
  std::vector<Part> parts;
  if (m.has_cost) parts.push_back({0, m.f});
  for (auto& e : m.eq) parts.push_back({1, e});
  for (auto& e : m.in) parts.push_back({2, e});
  slp::Problem<double> p;
  std::vector<V> x;
  for (int i = 0; i < m.n; ++i) x.push_back(p.decision_variable());
  for (int i = 0; i < m.n; ++i) x[i].set_value(m.x0[i]);
  std::vector<V> params;
  std::vector<Part> stated;
  auto add = [&](const Part& q) {
    V v;
    v.set_value(q.f.k);
    params.push_back(v);
    stated.push_back(q);
    state(p, x, q, params.back(), c);
    c.note("{}: {}", q.kind == 0 ? "minimize" : q.kind == 1 ? "= 0" : ">= 0", q.f.str());
  };
  size_t given = 0;
  size_t first = c.range(1, static_cast<int>(parts.size()));
  for (; given < first; ++given) add(parts[given]);
  Scratch scratch;
  int solves = 0, busy = 0;
  bool changed = false;
  // Callbacks stay registered from solve to solve until they're cleared, a persistent one even then
  Run* current = nullptr;
  std::vector<int> registered, called;
  int throw_at = -1, raised = 0;
  p.add_persistent_callback([&](const Info& i) -> bool {
    if (static_cast<int>(current->seen.size()) == throw_at) {
      ++raised;
      throw Thrown{throw_at};
    }
    current->seen.push_back(see(i));
    return false;
  });
  int steps = c.range(2, 7);
  for (int t = 0; t < steps; ++t) {
    switch (c.weighted({4, 2, 2, 2, 1})) {
      case 0: break;
      case 1: {
        int k = c.range(0, static_cast<int>(params.size()) - 1);
        double v = stated[k].f.k + c.grid(-0.5, 0.5);
        params[k].set_value(v);
        c.note("parameter {} := {}", k, v);
        changed = true;
        break;
      }
      case 2:
        for (int i = 0; i < m.n; ++i) x[i].set_value(m.x0[i] + c.grid(-0.5, 0.5));
        c.note("new initial guess{}", show(values(x)));
        break;
      case 3:
        if (given < parts.size()) {
          add(parts[given++]);
          changed = true;
        }
        break;
      default: {
        Part q{0, m.f};
        if (!m.has_cost) {
          q.f = Fn(m.n);
          for (int i = 0; i < m.n; ++i) {
            Vec a = Vec::Zero(m.n);
            a[i] = 1;
            q.f.terms.push_back({SQ, 1.0, a, 0.5});
          }
        }
        q.f.l += gen_dir(c, m.n);
        add(q);
        changed = true;
      }
    }
    if (c.chance(1, 8)) {
      p.clear_callbacks();
      registered.clear();
      c.note("clear_callbacks");
    }
    if (c.chance(1, 3)) {
      int id = t;
      registered.push_back(id);
      c.note("add_callback {}", id);
      if (c.coin()) p.add_callback([&called, id](const Info&) { called.push_back(id); });
      else p.add_callback([&called, id](const Info&) -> bool { called.push_back(id); return false; });
    }
    slp::Options o;
    o.max_iterations = c.pick({40, 40, 40, 3});
    o.tolerance = c.pick({1e-8, 1e-4});
    o.feasible_ipm = c.chance(1, 8);
    // A fresh problem with the same statements and values
    slp::Problem<double> q;
    std::vector<V> y;
    for (int i = 0; i < m.n; ++i) y.push_back(q.decision_variable());
    for (int i = 0; i < m.n; ++i) y[i].set_value(x[i].value());
    std::vector<V> qp;
    for (size_t k = 0; k < stated.size(); ++k) {
      V v;
      v.set_value(params[k].value());
      qp.push_back(v);
    }
    for (size_t k = 0; k < stated.size(); ++k) state(q, y, stated[k], qp[k], c);
    std::vector<double> before;
    for (auto& v : params) before.push_back(v.value());
    o.diagnostics = c.chance(1, 4);
    bool spy = c.chance(1, 4);
    Run a;
    if (c.chance(1, 8)) {
      // An exception of a callback ends the solve, and leaves a problem that can be solved again
      throw_at = c.range(0, 4);
      bool thrown = false;
      raised = 0;
      {
        Quiet quiet;
        current = &a;
        try {
          a.status = p.solve(o, spy);
        } catch (const Thrown& e) {
          thrown = true;
          PCHECK(e.at == throw_at, "another exception");
        }
      }
      c.note("an exception at iteration {}: {}", throw_at, thrown ? "thrown" : "not reached");
      PCHECK(raised == thrown, "{} exceptions of a callback, {} let through", raised, thrown ? 1 : 0);
      throw_at = -1;
      for (size_t k = 0; k < params.size(); ++k) PCHECK(params[k].value() == before[k], "parameter {} was changed", k);
      if (thrown) c.label("exception");
      changed |= thrown;
      for (auto f : {"H.spy", "A_e.spy", "A_i.spy"}) std::filesystem::remove(f);
      if (!values(x).allFinite()) break;
      continue;
    }
    {
      Quiet quiet;
      current = &a;
      called.clear();
      a.status = p.solve(o, spy);
      a.x = values(x);
    }
    {
      std::vector<int> want;
      for (size_t k = 0; k < a.seen.size(); ++k) want.insert(want.end(), registered.begin(), registered.end());
      PCHECK(called == want, "{} calls of the {} registered callbacks in {} iterations", called.size(), registered.size(), a.seen.size());
    }
    o.diagnostics = false;
    Run b = record(q, y, o);
    c.note("solve: {} after {} at{}", a.status, a.seen.size(), show(a.x));
    same_run(b, a, "a fresh problem versus this one");
    for (size_t k = 0; k < params.size(); ++k) PCHECK(params[k].value() == before[k], "parameter {} was changed", k);
    if (spy && a.seen.size()) PCHECK(std::filesystem::exists("H.spy"), "no H.spy");
    if (!spy && solves == 0) PCHECK(!std::filesystem::exists("H.spy"), "H.spy without being asked");
    std::filesystem::remove("H.spy");
    std::filesystem::remove("A_e.spy");
    std::filesystem::remove("A_i.spy");
    ++solves;
    busy += a.seen.size() > 0;
    if (!a.x.allFinite()) break;
  }
  c.nontrivial(solves >= 3 && busy >= 2 && changed);
}

PROPERTY("construction", "at least two shapes of decision variables and two kinds of statements") {
  slp::Problem<double> p;
  using slp::ExpressionType;
  std::vector<V> all;
  int shapes = 0, kinds = 0;
  PCHECK(p.cost_function_type() == ExpressionType::NONE && p.equality_constraint_type() == ExpressionType::NONE && p.inequality_constraint_type() == ExpressionType::NONE, "types of the empty problem");
  int blocks = c.range(1, 4);
  std::vector<std::pair<VM, bool>> mats;
  for (int t = 0; t < blocks; ++t) {
    int form = c.range(0, 3);
    if (form == 0) {
      V v = p.decision_variable();
      PCHECK(v.value() == 0, "initial value {}", v.value());
      all.push_back(v);
    } else if (form == 1) {
      int r = c.range(0, 4);
      VM v = p.decision_variable(r);
      PCHECK(v.rows() == r && v.cols() == 1, "{}x{} instead of {}x1", v.rows(), v.cols(), r);
      for (int i = 0; i < r; ++i) all.push_back(v[i]);
      mats.push_back({v, false});
      shapes += r > 0;
    } else if (form == 2) {
      int r = c.range(1, 4), k = c.range(1, 4);
      VM v = p.decision_variable(r, k);
      PCHECK(v.rows() == r && v.cols() == k, "{}x{} instead of {}x{}", v.rows(), v.cols(), r, k);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < k; ++j) all.push_back(v[i, j]);
      mats.push_back({v, false});
      ++shapes;
    } else {
      int r = c.range(1, 4);
      VM v = p.symmetric_decision_variable(r);
      PCHECK(v.rows() == r && v.cols() == r, "{}x{} instead of {}x{}", v.rows(), v.cols(), r, r);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j <= i; ++j) all.push_back(v[i, j]);
      mats.push_back({v, true});
      ++shapes;
    }
  }
  int n = all.size();
  if (n == 0) return;
  c.note("{} variables", n);
  // All different, and linked to the matrices they came from
  for (int i = 0; i < n; ++i) {
    PCHECK(all[i].value() == 0, "initial value of {} is {}", i, all[i].value());
    PCHECK(all[i].type() == ExpressionType::LINEAR, "type of a decision variable");
  }
  for (int i = 0; i < n; ++i) all[i].set_value(i + 1);
  for (int i = 0; i < n; ++i) PCHECK(all[i].value() == i + 1, "variables share storage");
  for (auto& [v, sym] : mats)
    if (sym)
      for (int i = 0; i < v.rows(); ++i)
        for (int j = 0; j < v.cols(); ++j) PCHECK(v.value(i, j) == v.value(j, i), "not symmetric at ({}, {})", i, j);
  // A separable problem whose solution is known
  std::vector<double> target(n), start(n);
  V cost{0.0};
  for (int i = 0; i < n; ++i) {
    target[i] = c.range(-8, 8) / 4.0;
    start[i] = target[i] + c.range(-6, 6) / 4.0;
    all[i].set_value(start[i]);
    V d = all[i] - target[i];
    cost = cost + d * d;
  }
  V outside = 3.0 * all[0] + 1.0;
  V param;
  param.set_value(2.5);
  V unused;
  unused.set_value(-7);
  bool has_cost = c.chance(4, 5);
  if (has_cost) {
    p.minimize(cost);
    ++kinds;
  }
  ExpressionType te = ExpressionType::NONE, ti = ExpressionType::NONE;
  auto type = [&](int k, const V& u) -> std::pair<V, ExpressionType> {
    if (k == 0) return {u * 2.0, ExpressionType::LINEAR};
    if (k == 1) return {u * u, ExpressionType::QUADRATIC};
    if (k == 2) return {slp::exp(u), ExpressionType::NONLINEAR};
    return {V{1.0}, ExpressionType::CONSTANT};
  };
  // Inequalities that hold strictly at the target do not move the optimum;
  // equalities fix distinct variables at it
  std::vector<bool> fixed(n, false);
  int ne = c.range(0, std::min(2, n)), ni = c.range(0, 3);
  for (int i = 0; i < ne; ++i) {
    int v = c.range(0, n - 1);
    if (fixed[v]) continue;
    fixed[v] = true;
    int k = c.range(0, 2);
    if (k == 1) target[v] = target[v] == 0 ? 1 : target[v];
    auto [e, t] = type(k, all[v] - target[v] + (k == 1 ? 1.0 : 0.0));
    if (k > 0 && start[v] < target[v]) all[v].set_value(start[v] = target[v] + 1);
    double rhs = k == 0 ? 0 : 1;
    p.subject_to(e == rhs);
    te = std::max(te, t);
    PCHECK(p.equality_constraint_type() == te, "equality type {}", p.equality_constraint_type());
    ++kinds;
  }
  {
    for (int i = 0; i < ni; ++i) {
      int v = c.range(0, n - 1), k = c.range(0, 3);
      auto [e, t] = type(k, all[v] - target[v]);
      p.subject_to(k == 3 ? e >= 0.0 : e <= 3.0);
      ti = std::max(ti, t);
      PCHECK(p.inequality_constraint_type() == ti, "inequality type {}", p.inequality_constraint_type());
      ++kinds;
    }
  }
  PCHECK(p.cost_function_type() == (has_cost ? ExpressionType::QUADRATIC : ExpressionType::NONE), "cost type");
  // (the costs' targets of k == 1 equalities may have moved)
  if (has_cost) {
    V f{0.0};
    for (int i = 0; i < n; ++i) {
      V d = all[i] - target[i];
      f = f + d * d;
    }
    p.minimize(f + param - 2.5);
    cost = f;
  }
  auto s = solve(c, p, {});
  PCHECK(param.value() == 2.5 && unused.value() == -7, "values that are not decision variables changed");
  PCHECK(outside.value() == 3.0 * all[0].value() + 1.0, "an expression does not reflect the solution");
  LD fv = 0;
  for (int i = 0; i < n; ++i) fv += (all[i].value() - target[i]) * static_cast<LD>(all[i].value() - target[i]);
  if (has_cost) PCHECK(std::abs(cost.value() - static_cast<double>(fv)) <= 1e-9 * (1 + static_cast<double>(fv)), "the cost expression does not reflect the solution");
  for (auto& [v, sym] : mats) {
    Mat w = v.value();
    if (sym) PCHECK(w == w.transpose(), "not symmetric after solving");
  }
  if (has_cost) {
    PCHECK(s == ExitStatus::SUCCESS, "{}", s);
    for (int i = 0; i < n; ++i) PCHECK(std::abs(all[i].value() - target[i]) < 1e-5, "variable {} is {} instead of {}", i, all[i].value(), target[i]);
  }
  c.nontrivial(shapes >= 2 && kinds >= 2);
}

PROPERTY("feasible_ipm", "strictly feasible start, at least three iterations, and without the option some iterate is infeasible") {
  Vec xs;
  Model m = gen_general(c, 4, &xs);
  if (m.in.empty()) return;
  for (auto& f : m.in) {
    LD v = f.value(m.x0.cast<LD>());
    if (v < 0.01) f.k += 0.01 - static_cast<double>(v) + c.grid(0, 1);
  }
  m.note(c);
  slp::Options o;
  o.max_iterations = 100;
  Run plain = record(c, m, o);
  o.feasible_ipm = true;
  Run r = record(c, m, o);
  c.label(std::format("{}", r.status));
  int n = m.n;
  for (size_t t = 0; t < r.seen.size(); ++t) {
    if (r.seen[t].x.size() != n) { c.label("restoration"); break; }
    LVec x = r.seen[t].x.cast<LD>();
    for (auto& f : m.in) {
      LD mag, v = f.value(x, &mag);
      PCHECK(v > -1e-13 * mag, "iteration {} at{}: an inequality has value {}", t, show(r.seen[t].x), static_cast<double>(v));
    }
  }
  bool needed = false;
  for (auto& s : plain.seen) {
    if (s.x.size() != n) break;
    for (auto& f : m.in) needed |= f.value(s.x.cast<LD>()) < 0;
  }
  c.nontrivial(needed && r.seen.size() >= 3);
}

PROPERTY("multistart", "at least three guesses, with successes and failures or several successes") {
  c.scale_up(200);
  int k = c.size(1, 8, 48);
  struct Job {
    ExitStatus status;
    double cost;
    int delay;
  };
  std::vector<Job> jobs;
  std::vector<Vec> guesses;
  int succ = 0;
  for (int i = 0; i < k; ++i) {
    ExitStatus s = c.coin() ? ExitStatus::SUCCESS : c.pick({ExitStatus::CALLBACK_REQUESTED_STOP, ExitStatus::TOO_FEW_DOFS, ExitStatus::LOCALLY_INFEASIBLE, ExitStatus::GLOBALLY_INFEASIBLE, ExitStatus::FACTORIZATION_FAILED, ExitStatus::LINE_SEARCH_FAILED, ExitStatus::FEASIBILITY_RESTORATION_FAILED, ExitStatus::NONFINITE_INITIAL_GUESS, ExitStatus::DIVERGING_ITERATES, ExitStatus::MAX_ITERATIONS_EXCEEDED, ExitStatus::TIMEOUT});
    succ += s == ExitStatus::SUCCESS;
    jobs.push_back({s, c.weighted({5, 1}) ? c.pick({1e300, -1e300, HUGE_VAL}) : static_cast<double>(c.range(-3, 3)), c.chance(1, 4) ? c.range(0, 300) : 0});
    guesses.push_back(Vec::Constant(2, i));
    c.note("{}: {} cost {} after {} us", i, s, jobs.back().cost, jobs.back().delay);
  }
  std::vector<std::atomic<int>> called(k);
  auto solve = [&](const Vec& g) -> slp::MultistartResult<double, Vec> {
    int i = static_cast<int>(g[0]);
    ++called[i];
    if (jobs[i].delay) usleep(jobs[i].delay);
    Vec out(3);
    out << i, g[1], 42;
    return {jobs[i].status, jobs[i].cost, out};
  };
  auto r = slp::multistart<double, Vec>(solve, guesses);
  for (int i = 0; i < k; ++i) PCHECK(called[i] == 1, "guess {} solved {} times", i, called[i].load());
  int w = static_cast<int>(r.variables[0]);
  PCHECK(w >= 0 && w < k && r.variables.size() == 3 && r.variables[2] == 42 && r.variables[1] == w, "variables of no result");
  PCHECK(r.status == jobs[w].status && r.cost == jobs[w].cost, "mixes results");
  PCHECK(!succ || r.status == ExitStatus::SUCCESS, "{} although a solve succeeded", r.status);
  if (succ)
    for (auto& j : jobs) PCHECK(j.status != ExitStatus::SUCCESS || j.cost >= r.cost, "cost {} although {} was found", r.cost, j.cost);
  c.nontrivial(k >= 3 && (succ >= 2 || (succ && succ < k)));
}
