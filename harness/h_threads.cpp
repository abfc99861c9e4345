// P08: the library on several threads at once
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/ocp.hpp>

#include <barrier>
#include <bit>
#include <thread>

#include "gen_expr.hpp"
#include "model.hpp"

using namespace model;
using Info = slp::IterationInfo<double>;

namespace {

/// Everything a job observed, bit for bit
struct Trace {
  std::vector<uint64_t> bits;
  void add(double v) { bits.push_back(std::isnan(v) ? 0x7ff8ull << 48 : std::bit_cast<uint64_t>(v)); }
  template <typename D>
  void add(const Eigen::DenseBase<D>& m) {
    for (int j = 0; j < m.cols(); ++j)
      for (int i = 0; i < m.rows(); ++i) add(static_cast<double>(m(i, j)));
  }
  void add(const Eigen::SparseMatrix<double>& m) { add(Mat(m)); }
};

/// Values and derivatives of random expressions, with updates in between
void job_expressions(Case& c, Trace& t) {
  ExprGen g{c};
  int n = c.range(1, 4);
  for (int i = 0; i < n; ++i) g.add_leaf(gen_leaf(c));
  g.grow(c.range(3, 25));
  VM x(n, 1);
  for (int i = 0; i < n; ++i) x[i] = g.leaves[i];
  int k = std::min(g.size(), c.range(1, 4));
  VM f(k, 1);
  for (int i = 0; i < k; ++i) f[i] = g.hs[g.size() - 1 - i].v;
  slp::Gradient grad{f[0], x};
  slp::Jacobian jac{f, x};
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> hes{f[0], x};
  for (int r = c.range(1, 3); r > 0; --r) {
    for (auto& h : g.hs) t.add(h.v.value());
    t.add(Vec(grad.value()));
    t.add(jac.value());
    t.add(hes.value());
    t.add(VM{jac.get()}.value());
    t.add(static_cast<double>(f[0].type()));
    for (int i = 0; i < n; ++i) g.set_leaf(i, gen_leaf(c));
  }
}

void job_matrices(Case& c, Trace& t) {
  int n = c.range(1, 4);
  VM A(n, n), B(n, c.range(1, 3));
  Mat a(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) a(i, j) = (i == j ? 4 : 0) + c.real(-1, 1);
  A.set_value(a);
  Mat b(n, B.cols());
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < B.cols(); ++j) b(i, j) = c.real(-2, 2);
  B.set_value(b);
  VM X = slp::solve(A, B);
  VM P = A.T() * X - B.block(0, 0, n, B.cols());
  t.add(X.value());
  t.add(P.value());
  A.set_value(Mat(a + Mat::Identity(n, n)));
  t.add(X.value());
  t.add(P.value());
}

void job_solve(Case& c, Trace& t, bool general) {
  Model m = general ? gen_general(c, 4) : gen_convex(c, 4).m;
  slp::Problem<double> p;
  auto x = build(c, p, m);
  p.add_callback([&](const Info& i) {
    t.add(i.iteration);
    t.add(i.x);
    t.add(i.s);
    t.add(i.y);
    t.add(i.z);
    t.add(i.H);
  });
  slp::Options o;
  o.tolerance = c.pick({1e-8, 1e-6});
  o.max_iterations = 60;
  for (int r = c.range(1, 2); r > 0; --r) {
    auto s = p.solve(o);
    t.add(static_cast<double>(s));
    t.add(values(x));
  }
}

void job_ocp(Case& c, Trace& t) {
  using namespace std::chrono_literals;
  int N = c.range(1, 4);
  auto method = c.pick({slp::TranscriptionMethod::DIRECT_TRANSCRIPTION, slp::TranscriptionMethod::DIRECT_COLLOCATION,
                        slp::TranscriptionMethod::SINGLE_SHOOTING});
  double a = c.real(-1, 1), b = c.real(0.5, 1.5);
  auto dyn = [=](const VM& x, const VM& u) -> VM {
    VM d(2, 1);
    d[0] = x[1];
    d[1] = a * slp::sin(x[0]) + b * u[0];
    return d;
  };
  slp::OCP<double> p(2, 1, std::chrono::duration<double>{0.1}, N, dyn, slp::DynamicsType::EXPLICIT_ODE, slp::TimestepMethod::FIXED, method);
  Vec x0(2);
  x0 << c.real(-1, 1), c.real(-1, 1);
  if (method == slp::TranscriptionMethod::SINGLE_SHOOTING) p.X().col(0).set_value(x0);
  else p.constrain_initial_state(x0);
  V J = 0.0;
  for (int k = 0; k <= N; ++k) {
    J += slp::pow(p.X()[0, k], 2);
    J += 0.1 * p.U()[0, k] * p.U()[0, k];
  }
  p.minimize(J);
  slp::Options o;
  o.max_iterations = 60;
  t.add(static_cast<double>(p.solve(o)));
  t.add(p.X().value());
  t.add(p.U().value());
}

void job_multistart(Case& c, Trace& t) {
  std::vector<Vec> guesses(c.range(1, 3));
  for (auto& g : guesses) {
    g = Vec(1);
    g << c.real(-4, 4);
  }
  double k = c.real(0.5, 3);
  auto solve = [&](const Vec& g) -> slp::MultistartResult<double, Vec> {
    slp::Problem<double> p;
    V x = p.decision_variable();
    x.set_value(g[0]);
    V f = slp::cos(k * x) + 0.1 * x * x;
    p.minimize(f);
    auto s = p.solve({.max_iterations = 40});
    Vec v(1);
    v << x.value();
    return {s, f.value(), v};
  };
  auto r = slp::multistart<double, Vec>(solve, guesses);
  t.add(static_cast<double>(r.status));
  t.add(r.cost);
  t.add(r.variables);
}

/// A job is a pure function of its seed
Trace run_job(uint64_t seed) {
  Case c{Case::Private{seed}};
  Trace t;
  switch (c.weighted({4, 2, 2, 3, 1, 1})) {
    case 0: job_expressions(c, t); break;
    case 1: job_matrices(c, t); break;
    case 2: job_solve(c, t, false); break;
    case 3: job_solve(c, t, true); break;
    case 4: job_ocp(c, t); break;
    default: job_multistart(c, t); break;
  }
  return t;
}

int kind(uint64_t seed) {
  Case c{Case::Private{seed}};
  return c.weighted({4, 2, 2, 3, 1, 1});
}

}  // namespace

PROPERTY("thread_isolation", "at least two threads with at least three jobs in all, of at least two kinds") {
  // Work of some lists of jobs, one list per thread
  int nt = c.range(2, 4);
  std::vector<std::vector<uint64_t>> jobs(nt);
  std::set<int> kinds;
  static const char* names[] = {"expressions", "matrices", "convex problem", "general problem", "ocp", "multistart"};
  int total = 0;
  for (int i = 0; i < nt; ++i) {
    int k = c.range(1, 3);
    std::string s;
    for (int j = 0; j < k; ++j) {
      uint64_t seed = c.draw(1 << 20);
      jobs[i].push_back(seed);
      kinds.insert(kind(seed));
      s += std::format(" {} ({})", names[kind(seed)], seed);
      c.label(names[kind(seed)]);
      ++total;
    }
    c.note("thread {}:{}", i, s);
  }
  c.nontrivial(total >= 3 && kinds.size() >= 2);

  // Alone, then at once (twice, on fresh threads)
  std::vector<std::vector<Trace>> alone(nt);
  bool before = c.coin();
  auto run_alone = [&] {
    for (int i = 0; i < nt; ++i)
      for (uint64_t s : jobs[i]) alone[i].push_back(run_job(s));
  };
  if (before) run_alone();
  std::vector<std::vector<std::vector<Trace>>> together(2, std::vector<std::vector<Trace>>(nt));
  for (auto& round : together) {
    std::barrier start{nt};
    std::vector<std::jthread> threads;
    for (int i = 0; i < nt; ++i)
      threads.emplace_back([&, i] {
        start.arrive_and_wait();
        for (uint64_t s : jobs[i]) round[i].push_back(run_job(s));
      });
  }
  if (!before) run_alone();
  for (auto& round : together)
    for (int i = 0; i < nt; ++i)
      for (size_t j = 0; j < jobs[i].size(); ++j) {
        PCHECK(round[i][j].bits.size() == alone[i][j].bits.size(), "job {} ({}) of thread {}: other threads changed how many results it has, {} instead of {}",
               jobs[i][j], names[kind(jobs[i][j])], i, round[i][j].bits.size(), alone[i][j].bits.size());
        for (size_t k = 0; k < alone[i][j].bits.size(); ++k)
          PCHECK(round[i][j].bits[k] == alone[i][j].bits[k], "job {} ({}) of thread {}: other threads changed result {} of {}: {:.17g} instead of {:.17g}", jobs[i][j],
                 names[kind(jobs[i][j])], i, k, alone[i][j].bits.size(), std::bit_cast<double>(round[i][j].bits[k]), std::bit_cast<double>(alone[i][j].bits[k]));
      }
}
