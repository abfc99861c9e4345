// P29, P30: optimal control problems
#include <sleipnir/optimization/ocp.hpp>

#include "model.hpp"

using namespace model;
using slp::DynamicsType;
using slp::ExitStatus;
using slp::TimestepMethod;
using slp::TranscriptionMethod;
using Dur = std::chrono::duration<double>;

namespace {

const char* name(TranscriptionMethod m) {
  return m == TranscriptionMethod::DIRECT_TRANSCRIPTION ? "transcription" : m == TranscriptionMethod::DIRECT_COLLOCATION ? "collocation" : "shooting";
}
const char* name(TimestepMethod m) { return m == TimestepMethod::FIXED ? "fixed" : m == TimestepMethod::VARIABLE ? "variable" : "variable single"; }

/// dx/dt or the next state as a function of [x u t dt]
struct Dyn {
  int ns, nu;
  bool timed;  // uses t and dt
  std::vector<Fn> f;

  LVec at(LD t, const LVec& x, const LVec& u, LD dt) const {
    LVec v(ns + nu + 2);
    v << x, u, t, dt;
    LVec r(ns);
    for (int i = 0; i < ns; ++i) r[i] = f[i].value(v);
    return r;
  }
  VM operator()(Case& c, const V& t, const VM& x, const VM& u, const V& dt) const {
    std::vector<V> v;
    for (int i = 0; i < ns; ++i) v.push_back(x[i]);
    for (int i = 0; i < nu; ++i) v.push_back(u[i]);
    v.push_back(t);
    v.push_back(dt);
    Speller sp{c, v, nullptr, true};
    VM r(ns);
    for (int i = 0; i < ns; ++i) r[i] = sp.fn(f[i]);
    return r;
  }
};

Dyn gen_dyn(Case& c, int ns, int nu, bool timed, bool dt_too) {
  Dyn d{ns, nu, timed, {}};
  int n = ns + nu + 2;
  auto dir = [&] {
    Vec a = Vec::Zero(n);
    int k = c.range(1, 3);
    for (int i = 0; i < k; ++i) a[c.range(0, timed ? (dt_too ? n - 1 : n - 2) : ns + nu - 1)] = c.pick({1.0, -1.0, 0.5, -0.5, 0.25});
    return a;
  };
  for (int i = 0; i < ns; ++i) {
    Fn f(n);
    f.l = dir();
    if (c.coin()) f.l[ns + c.range(0, nu - 1)] = 1;
    if (c.coin()) f.k = c.grid(-1, 1);
    for (int t = c.range(0, 2); t > 0; --t) {
      if (c.chance(1, 4)) f.bil.push_back({0.25, c.range(0, ns - 1), c.range(ns, ns + nu - 1)});
      else f.terms.push_back({c.pick({SIN, HYP, LOGCOSH}), c.pick({0.5, -0.5, 0.25}), dir(), c.grid(-1, 1)});
    }
    d.f.push_back(f);
  }
  return d;
}

LVec rk4(const Dyn& d, LD t, LVec x, const LVec& u, LD h) {
  LVec a = d.at(t, x, u, h);
  LVec b = d.at(t + h / 2, x + h / 2 * a, u, h);
  LVec e = d.at(t + h / 2, x + h / 2 * b, u, h);
  LVec g = d.at(t + h, x + h * e, u, h);
  return x + h / 6 * (a + 2 * b + 2 * e + g);
}

/// Slope at the middle of the cubic through both states with the slopes of
/// the dynamics there, less what the dynamics say
LVec midpoint_defect(const Dyn& d, LD t, const LVec& x0, const LVec& x1, const LVec& u0, const LVec& u1, LD h) {
  LVec f0 = d.at(t, x0, u0, h), f1 = d.at(t + h, x1, u1, h);
  // Hermite basis at s = 1/2: values 1/2, 1/8, 1/2, -1/8; slopes -3/2, -1/4, 3/2, -1/4
  LVec mid = (x0 + x1) / 2 + h / 8 * (f0 - f1);
  LVec slope = LD(1.5) * (x1 - x0) / h - (f0 + f1) / 4;
  return slope - d.at(t + h / 2, mid, (u0 + u1) / 2, h);
}

Mat vals(const VM& m) {
  Mat r(m.rows(), m.cols());
  VM t = m;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) r(i, j) = t.value(i, j);
  return r;
}

template <typename T>
std::string text(const T& m) {
  std::string s;
  for (int i = 0; i < m.rows(); ++i) {
    for (int j = 0; j < m.cols(); ++j) s += std::format(" {:.17g}", static_cast<double>(m(i, j)));
    if (i + 1 < m.rows()) s += " ;";
  }
  return s;
}

}  // namespace

PROPERTY("ocp_trajectory", "nonlinear dynamics over at least two steps, solved") {
  c.scale_up(300);  // long horizons have short steps
  int ns = c.range(1, 3), nu = c.range(1, 2), N = c.size(1, 5, 40);
  double per = c.large() ? 128.0 : 16.0;
  auto method = c.pick({TranscriptionMethod::DIRECT_TRANSCRIPTION, TranscriptionMethod::DIRECT_COLLOCATION, TranscriptionMethod::SINGLE_SHOOTING});
  bool coll = method == TranscriptionMethod::DIRECT_COLLOCATION, shoot = method == TranscriptionMethod::SINGLE_SHOOTING;
  auto type = coll ? DynamicsType::EXPLICIT_ODE : c.pick({DynamicsType::EXPLICIT_ODE, DynamicsType::DISCRETE});
  auto steps = c.pick({TimestepMethod::FIXED, TimestepMethod::VARIABLE, TimestepMethod::VARIABLE_SINGLE});
  bool timed = c.coin();
  Dyn d = gen_dyn(c, ns, nu, timed, !coll);
  double h0 = c.range(1, 8) / per;
  Vec h = Vec::Constant(N + 1, h0);
  if (steps == TimestepMethod::VARIABLE)
    for (int i = 0; i <= N; ++i) h[i] = c.range(1, 8) / per;
  if (steps == TimestepMethod::VARIABLE_SINGLE) h.setConstant(c.range(1, 8) / per);
  Mat U(nu, N + 1);
  for (int i = 0; i < nu; ++i)
    for (int j = 0; j <= N; ++j) U(i, j) = c.grid(-1, 1);
  Vec x0(ns);
  for (int i = 0; i < ns; ++i) x0[i] = c.grid(-1, 1);
  c.note("{} {} dt {} {}{}", name(method), name(steps), h0, type == DynamicsType::DISCRETE ? "discrete" : "ode", timed ? " timed" : "");
  for (auto& f : d.f) c.note("  f = {}", f.str());
  c.note("h{} U{} x0{}", text(h.transpose()), text(U), text(x0.transpose()));
  if (c.large()) {  // trajectories that leave the region of interest say nothing
    LVec x = x0.cast<LD>();
    LD t = 0;
    for (int k = 0; k < N; ++k) {
      LVec u = U.col(k).cast<LD>();
      x = type == DynamicsType::DISCRETE ? d.at(t, x, u, h[k]) : rk4(d, t, x, u, h[k]);
      t += h[k];
      if (!(x.cwiseAbs().maxCoeff() < 4)) throw pbt::Discard{};
    }
  }

  // The callbacks must not be used after construction
  auto timed_fn = [&](const V& t, const VM& x, const VM& u, const V& dt) { return d(c, t, x, u, dt); };
  auto plain_fn = [&](const VM& x, const VM& u) { return d(c, V{0.0}, x, u, V{0.0}); };
  using P = slp::OCP<double>;
  auto p = timed ? std::make_unique<P>(ns, nu, Dur{h0}, N, timed_fn, type, steps, method) : std::make_unique<P>(ns, nu, Dur{h0}, N, plain_fn, type, steps, method);
  PCHECK(vals(p->dt()) == Mat::Constant(1, N + 1, h0), "initial timesteps{}", text(vals(p->dt())));
  bool few = shoot && ns > nu * (N + 1) + (steps == TimestepMethod::FIXED ? 0 : steps == TimestepMethod::VARIABLE ? N + 1 : 1);
  int late = few ? 2 : c.range(0, 1);
  if (few) p->X().col(0).set_value(x0);
  if (!late) p->constrain_initial_state(x0);
  int j0 = c.range(0, N);
  if (!shoot) {
    for (int j = 0; j <= N; ++j) p->subject_to(p->U().col(j) == Vec(U.col(j)));
    if (steps == TimestepMethod::VARIABLE)
      for (int j = 0; j <= N; ++j) p->subject_to(p->dt()[0, j] == h[j]);
    if (steps == TimestepMethod::VARIABLE_SINGLE) p->subject_to(p->dt()[0, j0] == h[0]);
  } else {
    // The states aren't variables, so this many constraints would be refused
    V cost{0.0};
    for (int j = 0; j <= N; ++j)
      for (int i = 0; i < nu; ++i) cost += slp::pow(p->U()[i, j] - U(i, j), 2);
    if (steps == TimestepMethod::VARIABLE)
      for (int j = 0; j <= N; ++j) cost += slp::pow(p->dt()[0, j] - h[j], 2);
    if (steps == TimestepMethod::VARIABLE_SINGLE) cost += slp::pow(p->dt()[0, j0] - h[0], 2);
    p->minimize(cost);
  }
  if (late == 1) p->constrain_initial_state(x0);
  if (!shoot) {
    // Start near the trajectory
    LVec x = x0.cast<LD>();
    LD t = 0;
    for (int k = 0; k <= N; ++k) {
      for (int i = 0; i < ns; ++i) p->X()[i, k].set_value(static_cast<double>(x[i]) + c.grid(-0.1, 0.1));
      LVec u = U.col(k).cast<LD>();
      x = type == DynamicsType::DISCRETE ? d.at(t, x, u, h[k]) : rk4(d, t, x, u, h[k]);
      t += h[k];
    }
  }
  for (int j = 0; j <= N; ++j)
    for (int i = 0; i < nu; ++i) p->U()[i, j].set_value(U(i, j) + c.grid(-0.1, 0.1));
  auto s = p->solve();
  c.label(std::format("{}: {}", name(method), s));
  // Without a cost the factorization can be inaccurate; a solve may stall close to the solution
  if (s == ExitStatus::LOCALLY_INFEASIBLE && !shoot) return;
  PCHECK(s == ExitStatus::SUCCESS, "{}", s);
  Mat X = vals(p->X()), Us = vals(p->U()), H = vals(p->dt());
  PCHECK((Us - U).cwiseAbs().maxCoeff() <= 1e-6 && (H.row(0).transpose() - h).cwiseAbs().maxCoeff() <= 1e-6, "inputs{} timesteps{}", text(Us), text(H));
  PCHECK((X.col(0) - x0).cwiseAbs().maxCoeff() <= 1e-6, "initial state{}", text(X.col(0)));
  if (steps == TimestepMethod::FIXED) PCHECK(H == Mat::Constant(1, N + 1, h0), "fixed timesteps changed");
  if (steps == TimestepMethod::VARIABLE_SINGLE) PCHECK(H == Mat::Constant(1, N + 1, H(0, 0)), "timesteps differ");
  LD t = 0;
  for (int k = 0; k < N; ++k) {
    LVec x = X.col(k).cast<LD>(), y = X.col(k + 1).cast<LD>(), u = Us.col(k).cast<LD>(), v = Us.col(k + 1).cast<LD>();
    LD hk = H(0, k), err;
    if (coll) err = midpoint_defect(d, t, x, y, u, v, hk).cwiseAbs().maxCoeff();
    else if (type == DynamicsType::DISCRETE) err = (d.at(t, x, u, hk) - y).cwiseAbs().maxCoeff();
    else err = (rk4(d, t, x, u, hk) - y).cwiseAbs().maxCoeff();
    PCHECK(err <= (shoot ? 1e-9 : 1e-6), "step {} is off by {}: states{} |{}", k, static_cast<double>(err), text(X.col(k).transpose()), text(X.col(k + 1).transpose()));
    t += hk;
  }
  bool nl = false;
  for (auto& f : d.f) nl |= !f.linear();
  c.nontrivial(nl && N >= 2);
}

PROPERTY("ocp_optimum", "an input bound is active, or the final state is constrained, over at least two steps") {
  c.scale_up(300);
  int ns = c.range(1, 3), nu = c.range(1, 2), N = c.size(1, 6, 40);
  auto method = c.pick({TranscriptionMethod::DIRECT_TRANSCRIPTION, TranscriptionMethod::SINGLE_SHOOTING});
  auto type = c.pick({DynamicsType::EXPLICIT_ODE, DynamicsType::DISCRETE});
  Mat A(ns, ns), B(ns, nu);
  Vec b(ns), r(ns), x0(ns);
  for (int i = 0; i < ns; ++i) {
    for (int j = 0; j < ns; ++j) A(i, j) = c.range(-3, 3) / (c.large() ? 64.0 : 4.0);
    for (int j = 0; j < nu; ++j) B(i, j) = c.range(-4, 4) / 4.0;
    b[i] = c.range(-2, 2) / 4.0;
    r[i] = c.range(-8, 8) / 4.0;
    x0[i] = c.range(-8, 8) / 4.0;
  }
  double h = c.range(1, 8) / 8.0, R = c.pick({0.5, 1.0, 0.1});
  bool bounded = c.coin();
  bool final = !bounded && c.coin();
  Vec lo(nu), hi(nu);
  for (int i = 0; i < nu; ++i) {
    lo[i] = -c.range(1, 6) / 4.0;
    hi[i] = c.range(1, 6) / 4.0;
  }
  bool scalar_bounds = c.coin();
  if (scalar_bounds) lo.setConstant(lo[0]), hi.setConstant(hi[0]);
  c.note("{} {} h {} N {}: A{} B{} b{} x0{} r{} R {}{}{}", name(method), type == DynamicsType::DISCRETE ? "discrete" : "ode", h, N, text(A), text(B), text(b.transpose()), text(x0.transpose()), text(r.transpose()), R,
         bounded ? std::format(" bounds{} |{}", text(lo.transpose()), text(hi.transpose())) : "", final ? " final" : "");
  // One step is affine: x' = Ad x + Bd u + bd
  Mat Ad = A, Bd = B;
  Vec bd = b;
  if (type == DynamicsType::EXPLICIT_ODE) {
    auto step = [&](Vec x, Vec u) -> Vec {
      auto f = [&](Vec y) -> Vec { return A * y + B * u + b; };
      Vec k1 = f(x), k2 = f(x + h / 2 * k1), k3 = f(x + h / 2 * k2), k4 = f(x + h * k3);
      return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    };
    bd = step(Vec::Zero(ns), Vec::Zero(nu));
    for (int i = 0; i < ns; ++i) Ad.col(i) = step(Vec::Unit(ns, i), Vec::Zero(nu)) - bd;
    for (int i = 0; i < nu; ++i) Bd.col(i) = step(Vec::Zero(ns), Vec::Unit(nu, i)) - bd;
  }
  // x_k = G_k u + c_k for the stacked inputs
  int n = nu * (N + 1);
  std::vector<Mat> G{Mat::Zero(ns, n)};
  std::vector<Vec> C{x0};
  for (int k = 0; k < N; ++k) {
    Mat g = Ad * G[k];
    g.middleCols(nu * k, nu) += Bd;
    G.push_back(g);
    C.push_back(Ad * C[k] + bd);
  }
  Mat Q = 2 * R * Mat::Identity(n, n);
  Vec q = Vec::Zero(n);
  for (int k = 0; k <= N; ++k) {
    Q += 2 * G[k].transpose() * G[k];
    q += 2 * G[k].transpose() * (C[k] - r);
  }
  // A final state that can be reached, with constraints that are independent
  Vec xf;
  if (final) {
    Eigen::JacobiSVD<Mat> svd(G[N]);
    if (n < ns || svd.singularValues().minCoeff() < 0.05) final = false;
    else xf = C[N] + G[N] * Vec::Constant(n, 0.3);
  }

  auto dyn = [&](const VM& x, const VM& u) -> VM { return A * x + B * u + VM{b}; };
  slp::OCP<double> p(ns, nu, Dur{h}, N, dyn, type, TimestepMethod::FIXED, method);
  // In single shooting the states aren't variables: constraining the initial one sets it
  bool redundant = true;
  if (method == TranscriptionMethod::SINGLE_SHOOTING && (n < ns + (final ? ns : 0) || c.coin())) p.X().col(0).set_value(x0), redundant = false;
  else p.constrain_initial_state(x0);
  if (final) p.constrain_final_state(xf);
  if (bounded) {
    if (scalar_bounds) {
      p.set_lower_input_bound(lo[0]);
      p.set_upper_input_bound(V{hi[0]});
    } else {
      p.set_lower_input_bound(lo);
      p.set_upper_input_bound(VM{hi});
    }
  }
  V cost{0.0};
  int calls = 0;
  auto stage = [&](const VM& x, const VM& u) {
    ++calls;
    for (int i = 0; i < ns; ++i) {
      V e = x[i] - r[i];
      cost += e * e;
    }
    for (int i = 0; i < nu; ++i) cost += R * u[i] * u[i];
  };
  if (c.coin()) {
    p.for_each_step(stage);
    PCHECK(calls == N + 1, "{} calls for {} steps", calls, N);
  } else {
    for (int k = 0; k <= N; ++k) stage(p.X().col(k), p.U().col(k));
  }
  p.minimize(cost);
  auto s = p.solve();
  c.label(std::format("{}", s));
  // The states of single shooting are sums of products that may cancel; the tolerance can be out of reach
  double big = std::max(Q.cwiseAbs().maxCoeff(), q.cwiseAbs().maxCoeff());
  for (auto& x : C) big = std::max(big, x.cwiseAbs().maxCoeff());
  // Constraints on an initial state that isn't a variable have no gradients, so the constraints are dependent
  if (s != ExitStatus::SUCCESS && method == TranscriptionMethod::SINGLE_SHOOTING && (redundant || big > 1e4)) return c.label("shooting, not solved");
  PCHECK(s == ExitStatus::SUCCESS, "{}", s);
  Mat X = vals(p.X()), U = vals(p.U());
  Vec u(n);
  for (int k = 0; k <= N; ++k) u.segment(nu * k, nu) = U.col(k);
  for (int k = 0; k <= N; ++k) PCHECK((X.col(k) - (G[k] * u + C[k])).cwiseAbs().maxCoeff() < 1e-5 * (1 + C[k].cwiseAbs().maxCoeff() / 10), "state {} is{} instead of{}", k, text(X.col(k).transpose()), text((G[k] * u + C[k]).transpose()));
  Vec grad = Q * u + q;
  bool active = false;
  if (bounded) {
    for (int i = 0; i < n; ++i) {
      double l = lo[i % nu], hh = hi[i % nu];
      PCHECK(u[i] >= l - 1e-6 && u[i] <= hh + 1e-6, "input {} is {} outside [{}, {}]", i, u[i], l, hh);
      bool at_lo = u[i] < l + 1e-3, at_hi = u[i] > hh - 1e-3;
      active |= at_lo || at_hi;
      PCHECK(grad[i] < 1e-3 || at_lo, "input {} = {} could decrease: gradient {}", i, u[i], grad[i]);
      PCHECK(grad[i] > -1e-3 || at_hi, "input {} = {} could increase: gradient {}", i, u[i], grad[i]);
    }
  } else if (final) {
    PCHECK((X.col(N) - xf).cwiseAbs().maxCoeff() < 1e-5, "final state{} instead of{}", text(X.col(N).transpose()), text(xf.transpose()));
    Mat Z = Mat::Zero(n + ns, n + ns);
    Z.topLeftCorner(n, n) = Q;
    Z.topRightCorner(n, ns) = -G[N].transpose();
    Z.bottomLeftCorner(ns, n) = G[N];
    Vec rhs(n + ns);
    rhs << -q, xf - C[N];
    Vec want = Z.fullPivLu().solve(rhs);
    PCHECK((want.head(n) - u).cwiseAbs().maxCoeff() < 1e-4, "inputs{} instead of{}", text(u.transpose()), text(want.head(n).transpose()));
  } else {
    Vec want = Q.llt().solve(-q);
    PCHECK((want - u).cwiseAbs().maxCoeff() < 1e-4, "inputs{} instead of{}", text(u.transpose()), text(want.transpose()));
  }
  c.nontrivial((active || final) && N >= 2);
}

PROPERTY("ocp_minimum_time", "at least two steps and a timestep bound that is not active") {
  c.scale_up(300);
  int n = c.range(1, 2), N = c.size(1, 6, 30);
  auto method = c.pick({TranscriptionMethod::DIRECT_TRANSCRIPTION, TranscriptionMethod::DIRECT_COLLOCATION, TranscriptionMethod::SINGLE_SHOOTING});
  auto steps = c.pick({TimestepMethod::VARIABLE_SINGLE, TimestepMethod::VARIABLE});
  Vec x0(n), xf(n), b(n);
  double T = 0;
  for (int i = 0; i < n; ++i) {
    x0[i] = c.range(-8, 8) / 4.0;
    xf[i] = x0[i] + (c.coin() ? 1 : -1) * c.range(1, 12) / 4.0;
    b[i] = c.range(2, 8) / 4.0;
    T = std::max(T, std::abs(xf[i] - x0[i]) / b[i]);
  }
  double hmin = c.pick({0.01, 0.05, 0.1}), hmax = c.pick({1.0, 5.0});
  if (T > 0.6 * hmax * N) hmax = 2 * T;
  double want = std::max(T, hmin * N);
  c.note("{} {} N {}: from{} to{} speeds{} timesteps {}..{}", name(method), name(steps), N, text(x0.transpose()), text(xf.transpose()), text(b.transpose()), hmin, hmax);
  auto dyn = [](const VM&, const VM& u) -> VM { return u; };
  slp::OCP<double> p(n, n, Dur{1.5 * want / N}, N, dyn, DynamicsType::EXPLICIT_ODE, steps, method);
  p.constrain_initial_state(x0);
  p.constrain_final_state(xf);
  p.set_upper_input_bound(b);
  p.set_lower_input_bound(Vec(-b));
  p.set_min_timestep(Dur{hmin});
  p.set_max_timestep(Dur{hmax});
  V total{0.0};
  for (int k = 0; k < N; ++k) total += p.dt()[0, k];
  p.minimize(total);
  for (int k = 0; k <= N; ++k)
    for (int i = 0; i < n; ++i) p.U()[i, k].set_value((xf[i] - x0[i]) / want / 1.5);
  if (method != TranscriptionMethod::SINGLE_SHOOTING)
    for (int k = 0; k <= N; ++k)
      for (int i = 0; i < n; ++i) p.X()[i, k].set_value(x0[i] + (xf[i] - x0[i]) * k / N);
  auto s = p.solve();
  c.label(std::format("{}", s));
  // The products of timesteps and inputs make this nonconvex; a solve can end elsewhere
  if (s != ExitStatus::SUCCESS && steps == TimestepMethod::VARIABLE) return;
  PCHECK(s == ExitStatus::SUCCESS, "{}", s);
  Mat X = vals(p.X()), U = vals(p.U()), H = vals(p.dt());
  double sum = H.row(0).head(N).sum();
  for (int k = 0; k <= N; ++k) PCHECK(H(0, k) >= hmin - 1e-6 && H(0, k) <= hmax + 1e-6, "timestep {} is {}", k, H(0, k));
  for (int k = 0; k <= N; ++k) PCHECK((U.col(k).cwiseAbs() - b).maxCoeff() <= 1e-6, "input {} is{}", k, text(U.col(k).transpose()));
  PCHECK((X.col(0) - x0).cwiseAbs().maxCoeff() <= 1e-6 && (X.col(N) - xf).cwiseAbs().maxCoeff() <= 1e-6, "from{} to{}", text(X.col(0).transpose()), text(X.col(N).transpose()));
  PCHECK(std::abs(sum - want) <= 1e-4 * (1 + want), "takes {} instead of {}", sum, want);
  c.nontrivial(N >= 2 && want > hmin * N);
}

PROPERTY("ocp_interface", "at least two steps, inputs and states, with a constraint added by a callback") {
  c.scale_up(500);
  int ns = c.size(1, 4, 12), nu = c.size(1, 3, 10), N = c.size(1, 6, 80);
  double per = c.large() ? 256.0 : 16.0;
  auto method = c.pick({TranscriptionMethod::DIRECT_TRANSCRIPTION, TranscriptionMethod::DIRECT_COLLOCATION, TranscriptionMethod::SINGLE_SHOOTING});
  bool coll = method == TranscriptionMethod::DIRECT_COLLOCATION, shoot = method == TranscriptionMethod::SINGLE_SHOOTING;
  auto type = coll ? DynamicsType::EXPLICIT_ODE : c.pick({DynamicsType::EXPLICIT_ODE, DynamicsType::DISCRETE});
  auto steps = c.pick({TimestepMethod::FIXED, TimestepMethod::VARIABLE, TimestepMethod::VARIABLE_SINGLE});
  double h = c.range(1, 16) / per;
  c.note("{} {} ns {} nu {} N {} dt {}", name(method), name(steps), ns, nu, N, h);
  int bad = 0, calls = 0;
  auto dyn = [&](const V&, const VM& x, const VM& u, const V&) -> VM {
    ++calls;
    bad += x.rows() != ns || x.cols() != 1 || u.rows() != nu || u.cols() != 1;
    VM r(ns);
    for (int i = 0; i < ns; ++i) r[i] = u[i % nu] + 0.5 * x[(i + 1) % ns];
    return r;
  };
  slp::OCP<double> p(ns, nu, Dur{h}, N, dyn, type, steps, method);
  PCHECK(calls > 0 && !bad, "dynamics called with wrong shapes");
  int after = calls;
  PCHECK(p.X().rows() == ns && p.X().cols() == N + 1, "X is {}x{}", p.X().rows(), p.X().cols());
  PCHECK(p.U().rows() == nu && p.U().cols() == N + 1, "U is {}x{}", p.U().rows(), p.U().cols());
  PCHECK(p.dt().rows() == 1 && p.dt().cols() == N + 1, "dt is {}x{}", p.dt().rows(), p.dt().cols());
  PCHECK(p.initial_state().rows() == ns && p.initial_state().cols() == 1 && p.final_state().rows() == ns && p.final_state().cols() == 1, "shape of the end states");
  auto et = p.equality_constraint_type();
  using slp::ExpressionType;
  if (shoot) PCHECK(et == ExpressionType::NONE, "single shooting has constraints");
  else PCHECK(et != ExpressionType::NONE, "no dynamics constraints");
  PCHECK(p.inequality_constraint_type() == ExpressionType::NONE && p.cost_function_type() == ExpressionType::NONE, "statements nobody made");
  // Everything refers to the same variables
  Mat U(nu, N + 1), X(ns, N + 1);
  for (int j = 0; j <= N; ++j) {
    for (int i = 0; i < nu; ++i) p.U()[i, j].set_value(U(i, j) = c.grid(-2, 2));
    for (int i = 0; i < ns; ++i)
      if (!shoot || j == 0) p.X()[i, j].set_value(X(i, j) = c.grid(-2, 2));
  }
  Vec H = Vec::Constant(N + 1, h);
  if (steps == TimestepMethod::VARIABLE)
    for (int j = 0; j <= N; ++j) p.dt()[0, j].set_value(H[j] = c.range(1, 16) / per);
  if (steps == TimestepMethod::VARIABLE_SINGLE) {
    double v = c.range(1, 16) / per;
    p.dt()[0, c.range(0, N)].set_value(v);
    H.setConstant(v);
  }
  PCHECK(vals(p.U()) == U && vals(p.dt()) == Mat(H.transpose()), "variables share storage: U{} dt{}", text(vals(p.U())), text(vals(p.dt())));
  if (!shoot) PCHECK(vals(p.X()) == X, "variables share storage: X{}", text(vals(p.X())));
  X = vals(p.X());
  if (shoot) {
    LVec x = X.col(0).cast<LD>();
    for (int k = 0; k < N; ++k) {
      auto f = [&](LVec y) {
        LVec r(ns);
        for (int i = 0; i < ns; ++i) r[i] = U(i % nu, k) + 0.5L * y[(i + 1) % ns];
        return r;
      };
      if (type == DynamicsType::DISCRETE) {
        x = f(x);
      } else {
        LD hk = H[k];
        LVec a = f(x), b = f(x + hk / 2 * a), e = f(x + hk / 2 * b), g = f(x + hk * e);
        x = LVec(x + hk / 6 * (a + 2 * b + 2 * e + g));
      }
      PCHECK((x - X.col(k + 1).cast<LD>()).cwiseAbs().maxCoeff() < 1e-12, "state {} is{} instead of{}", k + 1, text(X.col(k + 1).transpose()), text(x.transpose()));
    }
  }
  PCHECK(vals(p.initial_state()) == Mat(X.col(0)) && vals(p.final_state()) == Mat(X.col(N)), "end states{} |{}", text(vals(p.initial_state())), text(vals(p.final_state())));
  // The callbacks see each step once, in order
  int seen = 0;
  double time = 0;
  bool constrain = c.coin();
  if (c.coin()) {
    p.for_each_step([&](const VM& x, const VM& u) {
      PCHECK(seen <= N && vals(x) == Mat(X.col(seen)) && vals(u) == Mat(U.col(seen)), "call {} with x{} u{}", seen, text(vals(x)), text(vals(u)));
      if (constrain) p.subject_to(u >= -9.0);
      ++seen;
    });
  } else {
    p.for_each_step([&](const V& t, const VM& x, const VM& u, const V& dt) {
      V tt = t, dd = dt;
      PCHECK(seen <= N && vals(x) == Mat(X.col(seen)) && vals(u) == Mat(U.col(seen)), "call {} with x{} u{}", seen, text(vals(x)), text(vals(u)));
      PCHECK(std::abs(tt.value() - time) < 1e-12 && dd.value() == H[seen], "call {} at {} for {} instead of {} for {}", seen, tt.value(), dd.value(), time, H[seen]);
      if (constrain) p.subject_to(u >= -9.0);
      time += H[seen];
      ++seen;
    });
  }
  PCHECK(seen == N + 1, "{} calls for {} steps", seen, N);
  PCHECK(p.inequality_constraint_type() == (constrain ? ExpressionType::LINEAR : ExpressionType::NONE), "constraint made by the callback");
  PCHECK(calls == after, "dynamics were called again");
  // Statements of bounds make constraints of the right type
  if (c.coin()) {
    p.set_min_timestep(Dur{h / 2});
    PCHECK(p.inequality_constraint_type() == (steps != TimestepMethod::FIXED || constrain ? ExpressionType::LINEAR : ExpressionType::CONSTANT), "type of timestep bounds");
  }
  c.nontrivial(N >= 2 && ns > 1 && nu > 1 && constrain);
}
