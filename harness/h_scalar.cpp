// P42: scalar types other than double
#include <malloc.h>

#include "scalar_side.hpp"

using pbt::Case;
using scalars::ExprJob, scalars::ProblemJob, scalars::Out, scalars::LD;

namespace {

/// Memory that is read before it is written holds other values on each side
void perturb(int with) {
#ifndef __SANITIZE_ADDRESS__
  mallopt(M_PERTURB, with);
#endif
}

void same(const Out& a, const Out& b) {
  PCHECK(a.s == b.s, "{} instead of {}", b.s.size() ? b.s.back() : "", a.s.size() ? a.s.back() : "");
  for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); ++i)
    PCHECK(a.v[i] == b.v[i] || (std::isnan(a.v[i]) && std::isnan(b.v[i])), "number {} of {} is {} instead of {}", i, a.v.size(), static_cast<double>(b.v[i]), static_cast<double>(a.v[i]));
  PCHECK(a.v.size() == b.v.size(), "{} instead of {} numbers", b.v.size(), a.v.size());
}

template <typename F, typename G, typename J>
Out both(F f, G g, J&& a, J&& b) {
  perturb(0x55);
  Out x = f(a);
  perturb(0x81);
  Out y = g(b);
  perturb(0);
  same(x, y);
  return x;
}

ExprJob gen_expr(Case& c) {
  ExprJob j;
  ref::Prog& p = j.prog;
  int leaves = c.range(1, 4);
  std::vector<int> live;
  for (int i = 0; i < leaves; ++i) live.push_back(p.add_leaf(c.chance(1, 4) ? c.num(3) : c.real(-2.5, 2.5)));
  int ops = c.range(1, 16);
  auto operand = [&] {
    if (c.chance(1, 4)) return p.add_const(c.chance(3, 5) ? c.pick({0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.0, 4.0}) : c.num(4));
    int n = static_cast<int>(live.size());
    return c.coin() ? live[n - 1 - c.draw(std::min(n, 4))] : live[c.draw(n)];
  };
  for (int i = 0; i < ops; ++i) {
    int op = c.coin() ? c.pick({ref::ADD, ref::SUB, ref::MUL, ref::DIV}) : c.range(ref::NEG, ref::HYPOT3);
    size_t mark = p.nodes.size();
    int ar = ref::arity(op);
    int a = operand(), b = ar > 1 ? operand() : -1, d = ar > 2 ? operand() : -1;
    int n = p.add(op, a, b, d);
    if (!p.eval()[n].ok) {
      p.nodes.resize(mark);
      n = p.add(c.pick({ref::TANH, ref::ATAN, ref::ERF}), live[c.draw(live.size())]);
    }
    c.label(ref::op_name(p.nodes[n].op));
    live.push_back(n);
  }
  j.root = live.back();
  for (int i = 0; i < leaves; ++i)
    if (i == 0 || c.chance(3, 4)) j.wrt.push_back(i);
  int rounds = c.range(0, 2);
  for (int r = 0; r < rounds; ++r) {
    j.updates.push_back({});
    for (int i = 0; i < leaves; ++i) j.updates.back().push_back(p.leaf[i] + c.grid(-0.25, 0.25));
  }
  j.forms = c.draw(1 << 20);
  c.note("{} with respect to {} leaves at {}", p.str(j.root), j.wrt.size(), [&] {
    std::string s;
    for (double v : p.leaf) s += std::format(" {:.17g}", v);
    return s;
  }());
  return j;
}

bool nontrivial(const ExprJob& j) {
  auto r = j.prog.eval(j.wrt)[j.root];
  int ops = 0;
  for (auto& n : j.prog.nodes) ops += n.op >= ref::NEG;
  for (size_t i = 0; i < j.wrt.size(); ++i)
    if (r.g[i] != 0) return ops >= 3;
  return false;
}

}  // namespace

PROPERTY("scalar_expressions", "at least 3 operations and a derivative that is not zero") {
  ExprJob j = gen_expr(c);
  both(expr_double, expr_num, j, j);
  c.nontrivial(nontrivial(j));
}

PROPERTY("scalar_precision", "at least 3 operations and a derivative that is not zero") {
  ExprJob j = gen_expr(c);
  Out d = expr_double(j), l = expr_longdouble(j), f = expr_float(j);
  PCHECK(l.v.size() == d.v.size() && f.v.size() == d.v.size(), "{} and {} instead of {} numbers", l.v.size(), f.v.size(), d.v.size());
  size_t at = 0, n = j.wrt.size();
  // acos(0) has the accuracy of the double in it
  bool pi = false;
  for (auto& q : j.prog.nodes) pi |= q.op == ref::ACOS;
  for (size_t round = 0; round <= j.updates.size(); ++round) {
    auto jets = j.prog.eval(j.wrt, round ? &j.updates[round - 1] : &j.prog.leaf);
    auto& r = jets[j.root];
    auto check = [&](LD want, LD mag, LD lt, LD ft, const char* what) {
      LD s = 1 + std::abs(want) + mag;
      if (r.ok && mag < 1e12L) {
        PCHECK(std::abs(l.v[at] - want) <= lt * s, "round {}: {} in long double is off by {} of {} (scale {})", round, what, static_cast<double>(l.v[at] - want), static_cast<double>(want), static_cast<double>(s));
        PCHECK(std::abs(f.v[at] - want) <= ft * s, "round {}: {} in float is off by {} of {} (scale {})", round, what, static_cast<double>(f.v[at] - want), static_cast<double>(want), static_cast<double>(s));
      }
      ++at;
    };
    check(r.v, r.av, pi ? 1e-14L : 1e-17L, 1e-3L, "value");
    for (int twice = 0; twice < 2; ++twice) {
      for (size_t i = 0; i < n; ++i) check(r.g[i], r.ag[i], 1e-13L, 0.1L, "gradient");
      for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < n; ++k) check(r.h[i][k], r.ah[i][k], 1e-11L, 1, "Hessian");
    }
  }
  c.nontrivial(nontrivial(j));
}

PROPERTY("scalar_operations", "a derivative that is not zero or one") {
  // One operation, on leaves: its value and derivatives have all the digits of the type
  ExprJob j;
  int op = c.range(ref::NEG, ref::HYPOT3), ar = ref::arity(op);
  int args[3] = {-1, -1, -1};
  for (int i = 0; i < ar; ++i) {
    args[i] = j.prog.add_leaf((c.coin() ? 1 : -1) * c.real(1, 2) * std::ldexp(1.0, c.coin() ? c.range(-2, 1) : c.range(-12, 4)));
    j.wrt.push_back(i);
  }
  j.root = j.prog.add(op, args[0], args[1], args[2]);
  j.forms = c.draw(1 << 20);
  auto r = j.prog.eval(j.wrt)[j.root];
  if (!r.ok) throw pbt::Discard{};
  c.label(ref::op_name(op));
  c.note("{} at{}", j.prog.str(j.root), [&] {
    std::string s;
    for (double v : j.prog.leaf) s += std::format(" {:.17g}", v);
    return s;
  }());
  Out l = expr_longdouble(j);
  bool log10 = op == ref::LOG10, erf = op == ref::ERF;  // these have constants of type double in their derivatives
  size_t at = 0, n = j.wrt.size();
  auto check = [&](LD want, LD tol, const char* what) {
    PCHECK(std::abs(l.v[at] - want) <= tol * std::abs(want) + (tol > 1e-17L ? 1e-15L : 1e-18L), "{} is off by {} of {}", what, static_cast<double>(l.v[at] - want), static_cast<double>(want));
    ++at;
  };
  check(r.v, 4e-18L, "value");
  for (int twice = 0; twice < 2; ++twice) {
    for (size_t i = 0; i < n; ++i) check(r.g[i], log10 || erf ? 1e-15L : 4e-18L, "derivative");
    at += n * n;
  }
  for (size_t i = 0; i < n; ++i) c.nontrivial(r.g[i] != 0 && r.g[i] != 1);
}

PROPERTY("scalar_problems", "at least two iterations, with constraints") {
  ProblemJob j;
  if (c.coin()) j.m = model::gen_convex(c, 5, true).m;
  else j.m = model::gen_general(c, 4);
  j.m.note(c);
  j.options.tolerance = c.pick({1e-8, 1e-6, 1e-4});
  j.options.max_iterations = c.pick({200, 5, 40});
  j.options.feasible_ipm = c.chance(1, 8);
  j.again = c.chance(1, 4);
  Out o = both(problem_double, problem_num, j, j);
  c.note("{} after {} numbers", o.s[0], o.v.size());
  c.label(o.s[0]);
  c.nontrivial(o.v.size() > 40 && j.m.eq.size() + j.m.in.size());
}

PROPERTY("scalar_matrices", "at least 2 operations on matrices that are not 1x1") {
  Case d = c.twin();
  Out o = both(matrix_double, matrix_num, d, c);
  for (auto& s : o.s) c.label(s);
  c.note("{} operations, {} numbers", o.s.size(), o.v.size());
  c.nontrivial(o.s.size() >= 3 && o.v[0] * o.v[1] > 1);
}

PROPERTY("scalar_ocp", "solved") {
  Case d = c.twin();
  Out o = both(ocp_double, ocp_num, d, c);
  c.label(o.s[0]);
  c.note("{}: {}", o.s[1], o.s[0]);
  c.nontrivial(o.s[0] == "success");
}
