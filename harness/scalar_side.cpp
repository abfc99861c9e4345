// Compiled once per scalar type.
#include "scalar_side.hpp"

#include <chrono>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>

#include "scalar_type.hpp"

using scalars::ExprJob, scalars::ProblemJob, scalars::Out, scalars::LD;

namespace {

template <typename S>
struct Side {
  using V = slp::Variable<S>;
  using VM = slp::VariableMatrix<S>;
  using Vec = Eigen::Vector<S, Eigen::Dynamic>;
  using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;

  static LD out(const S& s) {
    if constexpr (std::same_as<S, Num>) return s.value();
    else return s;
  }
  static void put(Out& o, const S& s) { o.v.push_back(out(s)); }
  template <typename D>
  static void put(Out& o, const Eigen::MatrixBase<D>& m) {
    o.v.push_back(m.rows());
    o.v.push_back(m.cols());
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) put(o, S(m(i, j)));
  }
  template <int O>
  static void put(Out& o, const Eigen::SparseMatrix<S, O>& m) {
    o.v.push_back(m.nonZeros());
    put(o, Mat(m));
  }
  static void put(Out& o, VM m) { put(o, m.value()); }

  static V unary(int op, const V& a) {
    switch (op) {
      case ref::NEG: return -a;
      case ref::POS: return +a;
      case ref::ABS: return slp::abs(a);
      case ref::ACOS: return slp::acos(a);
      case ref::ASIN: return slp::asin(a);
      case ref::ATAN: return slp::atan(a);
      case ref::CBRT: return slp::cbrt(a);
      case ref::COS: return slp::cos(a);
      case ref::COSH: return slp::cosh(a);
      case ref::ERF: return slp::erf(a);
      case ref::EXP: return slp::exp(a);
      case ref::LOG: return slp::log(a);
      case ref::LOG10: return slp::log10(a);
      case ref::SIGN: return slp::sign(a);
      case ref::SIN: return slp::sin(a);
      case ref::SINH: return slp::sinh(a);
      case ref::SQRT: return slp::sqrt(a);
      case ref::TAN: return slp::tan(a);
      case ref::TANH: return slp::tanh(a);
    }
    return a;
  }
  template <typename A, typename B>
  static V binary(int op, const A& a, const B& b) {
    switch (op) {
      case ref::ADD: return a + b;
      case ref::SUB: return a - b;
      case ref::MUL: return a * b;
      case ref::DIV: return a / b;
      case ref::ATAN2: return slp::atan2(a, b);
      case ref::HYPOT: return slp::hypot(a, b);
      case ref::MAX: return slp::max(a, b);
      case ref::MIN: return slp::min(a, b);
      case ref::POW: return slp::pow(a, b);
    }
    return V{S(0)};
  }
  /// A constant operand as a variable, a scalar or an integer
  static V with_constant(int op, const V* a, double ka, const V* b, double kb, unsigned form) {
    double k = a ? kb : ka;
    bool whole = k == static_cast<int>(k);
    if (a && form == 0) return binary(op, *a, V{S(kb)});
    if (a && form == 2 && whole) return binary(op, *a, static_cast<int>(kb));
    if (a) return binary(op, *a, S(kb));
    if (form == 0) return binary(op, V{S(ka)}, *b);
    if (form == 2 && whole) return binary(op, static_cast<int>(ka), *b);
    return binary(op, S(ka), *b);
  }

  static Out expr(const ExprJob& job) {
    Out o;
    auto& nodes = job.prog.nodes;
    std::vector<V> v(nodes.size()), leaves(job.prog.leaf.size());
    uint64_t forms = job.forms;
    for (size_t i = 0; i < nodes.size(); ++i) {
      auto& n = nodes[i];
      forms = forms * 6364136223846793005ull + 1442695040888963407ull;
      unsigned form = (forms >> 33) % 3;
      if (n.op == ref::LEAF) {
        leaves[static_cast<int>(n.k)] = v[i];
        leaves[static_cast<int>(n.k)].set_value(S(job.prog.leaf[static_cast<int>(n.k)]));
        continue;
      }
      if (n.op == ref::CONST) {
        v[i] = V{S(n.k)};
        continue;
      }
      if (ref::arity(n.op) == 1) {
        v[i] = unary(n.op, v[n.a]);
      } else if (ref::arity(n.op) == 3) {
        v[i] = slp::hypot(v[n.a], v[n.b], v[n.c]);
      } else {
        bool ca = nodes[n.a].op == ref::CONST, cb = nodes[n.b].op == ref::CONST;
        if (ca == cb) v[i] = binary(n.op, v[n.a], v[n.b]);
        else v[i] = with_constant(n.op, ca ? nullptr : &v[n.a], ca ? nodes[n.a].k : 0, cb ? nullptr : &v[n.b], cb ? nodes[n.b].k : 0, form);
      }
    }
    V f = v[job.root];
    VM x(static_cast<int>(job.wrt.size()), 1);
    for (size_t i = 0; i < job.wrt.size(); ++i) x[static_cast<int>(i)] = leaves[job.wrt[i]];
    o.s.push_back(std::format("{}", f.type()));
    slp::Gradient<S> g{f, x};
    slp::Hessian<S, Eigen::Lower | Eigen::Upper> H{f, x};
    VM sg = g.get(), sH = H.get();
    for (size_t round = 0; round <= job.updates.size(); ++round) {
      if (round)
        for (size_t i = 0; i < leaves.size(); ++i) leaves[i].set_value(S(job.updates[round - 1][i]));
      put(o, f.value());
      Vec a = g.value();
      Mat h = H.value();
      for (int i = 0; i < a.size(); ++i) put(o, a[i]);
      for (int i = 0; i < a.size(); ++i)
        for (int j = 0; j < a.size(); ++j) put(o, h(i, j));
      for (int i = 0; i < a.size(); ++i) put(o, sg[i].value());
      for (int i = 0; i < a.size(); ++i)
        for (int j = 0; j < a.size(); ++j) put(o, sH[i, j].value());
    }
    return o;
  }

  // ---------------------------------------------------------------- problems

  static V phi(model::Phi p, const V& u) {
    switch (p) {
      case model::SQ: return u * u;
      case model::QUART: return slp::pow(u, S(4));
      case model::EXP: return slp::exp(u);
      case model::HYP: return slp::sqrt(S(1) + u * u);
      case model::SIN: return slp::sin(u);
      case model::LOGCOSH: return slp::log(slp::cosh(u));
      case model::LOG: return slp::log(u);
      case model::SQRT: return slp::sqrt(u);
      default: return u;
    }
  }
  static V affine(const std::vector<V>& x, const model::Vec& a, double b) {
    V s{S(0)};
    for (size_t i = 0; i < x.size(); ++i)
      if (a[i] != 0) s += S(a[i]) * x[i];
    return s + S(b);
  }
  static V fn(const std::vector<V>& x, const model::Fn& f) {
    V s = affine(x, f.l, f.k);
    for (auto& t : f.terms) s += S(t.w) * phi(t.phi, affine(x, t.a, t.b));
    for (auto& b : f.bil) s += (S(b.w) * x[b.i]) * x[b.j];
    return s;
  }

  static Out problem(const ProblemJob& job) {
    Out o;
    auto& m = job.m;
    slp::Problem<S> p;
    VM X = p.decision_variable(m.n);
    std::vector<V> x;
    for (int i = 0; i < m.n; ++i) {
      x.push_back(X[i]);
      x[i].set_value(S(m.x0[i]));
    }
    if (m.has_cost) p.minimize(fn(x, m.f));
    for (auto& f : m.eq) p.subject_to(fn(x, f) == S(0));
    for (size_t i = 0; i < m.in.size(); ++i) {
      if (i % 2) p.subject_to(S(0) <= fn(x, m.in[i]));
      else p.subject_to(VM{{fn(x, m.in[i])}} >= S(0));
    }
    p.add_callback([&](const slp::IterationInfo<S>& i) {
      o.v.push_back(i.iteration);
      put(o, i.x);
      put(o, i.s);
      put(o, i.y);
      put(o, i.z);
      put(o, Mat(i.g));
      put(o, i.H);
      put(o, i.A_e);
      put(o, i.A_i);
    });
    for (int k = 0; k <= job.again; ++k) {
      o.s.push_back(std::format("{}", p.solve(job.options)));
      o.s.push_back(std::format("{} {} {}", p.cost_function_type(), p.equality_constraint_type(), p.inequality_constraint_type()));
      put(o, X);
      if (k == 0 && job.again)
        for (int i = 0; i < m.n; ++i) x[i].set_value(x[i].value() + S(0.25));
    }
    return o;
  }

  // ---------------------------------------------------------------- matrices

  static Mat numbers(pbt::Case& c, int rows, int cols) {
    Mat m(rows, cols);
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j) m(i, j) = S(c.num(3));
    return m;
  }
  static Out matrix(pbt::Case& c) {
    Out o;
    int n = c.range(1, 5), k = c.range(1, 3);
    VM x(n * n, 1);
    Mat at = numbers(c, n * n, 1);
    x.set_value(at);
    std::vector<VM> ms;
    VM a(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) a[i, j] = c.chance(1, 4) ? V{S(c.num(2))} : c.coin() ? x[i * n + j] : x[i * n + j] * S(c.num(2));
    ms.push_back(a);
    ms.push_back(VM{numbers(c, n, n)});
    int steps = c.range(1, 6);
    for (int t = 0; t < steps; ++t) {
      VM p = ms[c.draw(ms.size())], q = ms[c.draw(ms.size())];
      VM r;
      int op = c.range(0, 13);
      S w{c.num(3)};
      switch (op) {
        case 0: r = p + q; break;
        case 1: r = p - q; break;
        case 2: r = p * q; break;
        case 3: r = p * w; break;
        case 4: r = w * p; break;
        case 5: r = p / S(2); break;
        case 6: r = -p; break;
        case 7: r = p.T(); break;
        case 8: r = p * numbers(c, n, n); break;
        case 9: r = numbers(c, n, n) - p; break;
        case 10: r = slp::cwise_reduce<S>(p, q, [](const V& s, const V& u) { return s * u; }); break;
        case 11: r = p.cwise_transform([](const V& s) { return slp::sin(s); }); break;
        case 12: {
          r = p;
          int i = c.range(0, n - 1), l = c.range(1, n - i);
          if (c.coin()) r.block(i, 0, l, n) += q.block(i, 0, l, n);
          else r.row(i) *= w;
          break;
        }
        default:
          r = p;
          r += q;
          r -= numbers(c, n, n);
          break;
      }
      o.s.push_back(std::format("op {}", op));
      ms.push_back(r);
    }
    VM p = ms.back();
    int last = c.range(0, 3);
    if (last == 1) {
      Mat B = numbers(c, n, k);
      p = c.coin() ? slp::solve(p, VM{B}) : slp::solve(p * S(0.5), p.block(0, 0, n, 1) + B.col(0));
    } else if (last == 2) {
      p = (p * S(c.pick({0.0625, 0.5, 0.001}))).exp();
    } else if (last == 3) {
      VM last_row{numbers(c, 1, n)};
      p = slp::block<S>({{p, VM::identity(n)}, {last_row, last_row}});
    }
    o.s.push_back(std::format("last {}", last));
    put(o, p);
    // Derivatives of all elements
    VM col(p.rows() * p.cols(), 1);
    for (int i = 0; i < col.rows(); ++i) {
      col[i] = p[i];
      o.v.push_back(static_cast<int>(p[i].type()));
    }
    slp::Jacobian<S> J{col, x};
    put(o, J.value());
    x.set_value(at * S(0.75));
    put(o, J.value());
    put(o, p);
    // Comparisons of matrices
    VM q = p;
    o.v.push_back(bool{q == p});
    o.v.push_back(bool{p >= Mat(p.value().array() - S(1))});
    o.v.push_back(bool{p <= S(0.5)});
    return o;
  }

  // ---------------------------------------------------------------- optimal control

  static Out ocp(pbt::Case& c) {
    Out o;
    auto type = c.pick({slp::DynamicsType::EXPLICIT_ODE, slp::DynamicsType::DISCRETE});
    auto method = c.pick({slp::TranscriptionMethod::DIRECT_TRANSCRIPTION, slp::TranscriptionMethod::DIRECT_COLLOCATION, slp::TranscriptionMethod::SINGLE_SHOOTING});
    if (type == slp::DynamicsType::DISCRETE && method == slp::TranscriptionMethod::DIRECT_COLLOCATION) method = slp::TranscriptionMethod::DIRECT_TRANSCRIPTION;
    auto step = c.pick({slp::TimestepMethod::FIXED, slp::TimestepMethod::VARIABLE_SINGLE, slp::TimestepMethod::VARIABLE});
    int N = c.range(1, 6);
    S h{c.pick({0.125, 0.1, 0.05})};
    std::chrono::duration<S> dt{h};
    S k{c.num(1)}, d{c.num(1)};
    bool nonlinear = c.coin();
    auto f = [=](const VM& x, const VM& u) {
      VM r(2, 1);
      r[0] = x[1];
      r[1] = k * (nonlinear ? slp::sin(x[0]) : x[0]) + d * x[1] + u[0];
      if (type == slp::DynamicsType::DISCRETE) r = VM{x + r * h};
      return r;
    };
    slp::OCP<S> p{2, 1, dt, N, f, type, step, method};
    Vec x0(2), x1(2);
    for (int i = 0; i < 2; ++i) x0[i] = S(c.grid(-1, 1)), x1[i] = S(c.grid(-1, 1));
    if (c.coin()) p.constrain_initial_state(x0);
    else p.constrain_initial_state(VM{x0});
    bool ends = c.chance(1, 3);
    if (ends && N > 2) p.constrain_final_state(x1);
    if (c.coin()) {
      p.set_lower_input_bound(S(-4));
      p.set_upper_input_bound(S(4));
    }
    if (step != slp::TimestepMethod::FIXED) {
      p.set_min_timestep(std::chrono::duration<S>{S(0.5) * h});
      p.set_max_timestep(std::chrono::duration<S>{S(2) * h});
    }
    V cost{S(0)};
    S w{c.pick({1.0, 0.5, 10.0})};
    p.for_each_step([&](const VM& x, const VM& u) { cost += w * (x[0] - S(0.5)) * (x[0] - S(0.5)) + u[0] * u[0]; });
    if (step != slp::TimestepMethod::FIXED && c.coin()) cost += p.dt()[0, 0] * p.dt()[0, 0];
    p.minimize(cost);
    p.add_callback([&](const slp::IterationInfo<S>& i) {
      put(o, i.x);
      put(o, i.s);
      put(o, i.y);
      put(o, i.z);
      put(o, i.H);
      put(o, i.A_e);
      put(o, i.A_i);
    });
    slp::Options opt;
    opt.max_iterations = 60;
    o.s.push_back(std::format("{}", p.solve(opt)));
    o.s.push_back(std::format("{} {} {} {} N = {}", static_cast<int>(type), static_cast<int>(method), static_cast<int>(step), nonlinear, N));
    put(o, p.X());
    put(o, p.U());
    put(o, p.dt());
    return o;
  }
};

}  // namespace

#ifdef SIDE_NUM
Out expr_num(const ExprJob& j) { return Side<Num>::expr(j); }
Out problem_num(const ProblemJob& j) { return Side<Num>::problem(j); }
#elifdef SIDE_NUM2
Out matrix_num(pbt::Case& c) { return Side<Num>::matrix(c); }
Out ocp_num(pbt::Case& c) { return Side<Num>::ocp(c); }
#elifdef SIDE_WIDE
Out expr_longdouble(const ExprJob& j) { return Side<long double>::expr(j); }
Out expr_float(const ExprJob& j) { return Side<float>::expr(j); }
#else
Out expr_double(const ExprJob& j) { return Side<double>::expr(j); }
Out problem_double(const ProblemJob& j) { return Side<double>::problem(j); }
Out matrix_double(pbt::Case& c) { return Side<double>::matrix(c); }
Out ocp_double(pbt::Case& c) { return Side<double>::ocp(c); }
#endif
