// P01, P03-P06: expressions, gradients, Jacobians and Hessians of sizes beyond what
// the program generators reach: up to 10^5 terms, hundreds of variables and rows
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

#include "pbt.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using T = slp::ExpressionType;
using LD = long double;

namespace {
/// A number in [lo, hi], its logarithm uniform
int log_range(pbt::Case& c, int lo, int hi) {
  int bits = 0;
  while ((lo << (bits + 1)) <= hi) ++bits;
  int b = c.range(0, bits);
  return std::min(hi, c.range(lo << b, (lo << b) * 2 - 1));
}

enum Kind { CONST, LIN, SQUARE, PRODUCT, SINE, EXPPROD, RATIO, SHARED, SHARED_SQ };

struct Term {
  Kind kind;
  double a;
  int i, j;
};

/// A sum of terms in up to two of the variables each
struct Sum {
  std::vector<Term> terms;
  int shape = 0;

  LD value(const std::vector<double>& x, LD s) const {
    LD v = 0;
    for (auto& t : terms) v += t.a * term(t, x, s);
    return v;
  }
  static LD term(const Term& t, const std::vector<double>& x, LD s) {
    LD p = x[t.i], q = x[t.j];
    switch (t.kind) {
      case CONST: return 1;
      case LIN: return p;
      case SQUARE: return p * p;
      case PRODUCT: return p * q;
      case SINE: return std::sin(p);
      case EXPPROD: return p * std::exp(q);
      case RATIO: return p / (q * q + 1);
      case SHARED: return s;
      case SHARED_SQ: return s * s;
    }
    return 0;
  }
  /// Gradient; s = sin(x_0) x_1
  std::vector<LD> gradient(const std::vector<double>& x, int si, int sj) const {
    std::vector<LD> g(x.size());
    LD s = std::sin((LD)x[si]) * x[sj], si_ = std::cos((LD)x[si]) * x[sj], sj_ = std::sin((LD)x[si]), k = 0;
    for (auto& t : terms) {
      LD p = x[t.i], q = x[t.j], a = t.a;
      switch (t.kind) {
        case CONST: break;
        case LIN: g[t.i] += a; break;
        case SQUARE: g[t.i] += 2 * a * p; break;
        case PRODUCT: g[t.i] += a * q, g[t.j] += a * p; break;
        case SINE: g[t.i] += a * std::cos(p); break;
        case EXPPROD: g[t.i] += a * std::exp(q), g[t.j] += a * p * std::exp(q); break;
        case RATIO: g[t.i] += a / (q * q + 1), g[t.j] -= a * p * 2 * q / ((q * q + 1) * (q * q + 1)); break;
        case SHARED: k += a; break;
        case SHARED_SQ: k += 2 * a * s; break;
      }
    }
    g[si] += k * si_, g[sj] += k * sj_;
    return g;
  }
  std::vector<LD> hessian(const std::vector<double>& x, int si, int sj) const {
    size_t n = x.size();
    std::vector<LD> h(n * n);
    auto add = [&](int i, int j, LD v) {  // d2/dx_i dx_j of a term that has both, i != j
      h[i * n + j] += v;
      h[j * n + i] += v;
    };
    LD sn = std::sin((LD)x[si]), cs = std::cos((LD)x[si]), xj = x[sj], s = sn * xj, k1 = 0, k2 = 0;
    for (auto& t : terms) {
      LD p = x[t.i], q = x[t.j], a = t.a, d = q * q + 1, e = std::exp(q);
      switch (t.kind) {
        case CONST:
        case LIN: break;
        case SQUARE: h[t.i * n + t.i] += 2 * a; break;
        case PRODUCT: add(t.i, t.j, a); break;  // i == j adds twice: 2a
        case SINE: h[t.i * n + t.i] -= a * std::sin(p); break;
        case EXPPROD:
          add(t.i, t.j, a * e);
          h[t.j * n + t.j] += a * p * e;
          break;
        case RATIO:
          add(t.i, t.j, -a * 2 * q / (d * d));
          h[t.j * n + t.j] += a * p * (8 * q * q / (d * d * d) - 2 / (d * d));
          break;
        case SHARED: k1 += a; break;
        case SHARED_SQ: k1 += 2 * a * s, k2 += 2 * a; break;
      }
    }
    // s_i = cs xj, s_j = sn, s_ii = -s, s_ij = cs
    LD g_i = cs * xj, g_j = sn;
    h[si * n + si] += k1 * -s + k2 * g_i * g_i;
    h[sj * n + sj] += k2 * g_j * g_j;
    add(si, sj, k1 * cs + k2 * g_i * g_j);
    return h;
  }
};

struct Large {
  pbt::Case& c;
  int n, si, sj;
  std::vector<V> x;
  std::vector<double> xv;
  V s;

  Large(pbt::Case& c_, int n_) : c{c_}, n{n_}, x(n_), xv(n_) {  // NOLINT
    si = static_cast<int>(c.draw(n));
    sj = static_cast<int>(c.draw(n));
    if (si == sj) sj = (si + 1) % n;
    s = slp::sin(x[si]) * x[sj];
  }
  void set(pbt::Case& r, bool all) {
    for (int i = 0; i < n; ++i)
      if (all || r.chance(1, 3)) {
        xv[i] = r.grid(-2, 2);
        x[i].set_value(xv[i]);
      }
  }
  LD sv() const { return std::sin((LD)xv[si]) * xv[sj]; }
  Sum gen(pbt::Case& r, int count, int degree) {
    Sum sum;
    sum.shape = r.range(0, 3);
    // Often all the terms are of one kind
    int only = r.chance(1, 3) ? r.range(0, 8) : -1;
    int window = r.coin() ? n : std::min(n, r.range(1, 6)), base = static_cast<int>(r.draw(n));
    for (int k = 0; k < count; ++k) {
      Term t;
      int kind = only >= 0 ? only : r.range(0, 8);
      if (degree < 2) kind = r.range(0, 1);
      else if (degree == 2 && kind > PRODUCT) kind = r.range(0, 3);
      t.kind = static_cast<Kind>(kind);
      t.a = r.range(-4, 4) / 4.0;
      if (t.a == 0) t.a = 1;
      t.i = (base + static_cast<int>(r.draw(window))) % n;
      t.j = (base + static_cast<int>(r.draw(window))) % n;
      sum.terms.push_back(t);
    }
    return sum;
  }
  V build(const Sum& sum) {
    std::vector<V> ts;
    for (auto& t : sum.terms) {
      V p = x[t.i], q = x[t.j], e;
      switch (t.kind) {
        case CONST: e = V{1.0}; break;
        case LIN: e = p; break;
        case SQUARE: e = p * p; break;
        case PRODUCT: e = p * q; break;
        case SINE: e = slp::sin(p); break;
        case EXPPROD: e = p * slp::exp(q); break;
        case RATIO: e = p / (q * q + 1); break;
        case SHARED: e = s; break;
        case SHARED_SQ: e = s * s; break;
      }
      ts.push_back(t.a == 1 ? e : t.a == -1 ? -e : t.a * e);
    }
    V f{0.0};
    switch (sum.shape) {
      case 0:
        for (auto& t : ts) f += t;
        break;
      case 1:
        for (size_t k = ts.size(); k-- > 0;) f = ts[k] + f;
        break;
      case 2:
        for (auto& t : ts) f -= -t;
        break;
      default:  // a balanced tree
        while (ts.size() > 1) {
          std::vector<V> up;
          for (size_t k = 0; k + 1 < ts.size(); k += 2) up.push_back(ts[k] + ts[k + 1]);
          if (ts.size() % 2) up.push_back(ts.back());
          ts = std::move(up);
        }
        if (!ts.empty()) f = ts[0];
    }
    return f;
  }
};

/// Whether a value is what was expected, for sums whose terms are at most ~20 in size
bool close(double got, LD want, size_t terms) {
  return std::abs(got - want) <= 1e-12L * (1 + std::abs(want)) + 1e-14L * 20 * static_cast<LD>(terms);
}

/// Terms of large sums aren't recorded one by one, but generated from one draw
pbt::Case sub(pbt::Case& c) { return pbt::Case{pbt::Case::Private{c.draw(1ull << 40)}}; }
}  // namespace

PROPERTY("large_values", "a sum of at least 1000 terms") {
  Large l{c, log_range(c, 2, 2000)};
  pbt::Case r = sub(c);
  Sum sum = l.gen(r, log_range(c, 1, 100'000), 9);
  c.note("{} terms of {} variables, shape {}", sum.terms.size(), l.n, sum.shape);
  c.nontrivial(sum.terms.size() >= 1000);
  c.label(std::format("2^{}", std::bit_width(sum.terms.size())));
  V f = l.build(sum);
  V g = slp::sin(f) + f;
  bool again = c.coin();
  for (int round = 0; round < 3; ++round) {
    l.set(r, round == 0);
    LD want = sum.value(l.xv, l.sv());
    double got = (again || round == 2) ? f.value() : 0;
    if (again || round == 2) PCHECK(close(got, want, sum.terms.size()), "round {}: {:.17g} instead of {:.17g}", round, got, (double)want);
    double got2 = g.value();
    PCHECK(close(got2, std::sin(want) + want, 2 * sum.terms.size()), "round {}: f + sin(f) is {:.17g} instead of {:.17g}", round, got2, (double)(std::sin(want) + want));
  }
}

PROPERTY("large_gradients", "a sum of at least 1000 terms, or at least 64 variables") {
  Large l{c, log_range(c, 2, 2000)};
  pbt::Case r = sub(c);
  Sum sum = l.gen(r, log_range(c, 1, 60'000), 9);
  c.note("{} terms of {} variables, shape {}", sum.terms.size(), l.n, sum.shape);
  c.nontrivial(sum.terms.size() >= 1000 || l.n >= 64);
  c.label(std::format("2^{}", std::bit_width(sum.terms.size())));
  V f = l.build(sum);
  VM w(l.n, 1);
  for (int i = 0; i < l.n; ++i) w[i] = l.x[i];
  slp::Gradient grad{f, w};
  bool symbolic = c.coin();
  VM sym;
  if (symbolic) sym = grad.get();
  for (int round = 0; round < 3; ++round) {
    l.set(r, round == 0);
    auto want = sum.gradient(l.xv, l.si, l.sj);
    Eigen::VectorXd g = grad.value().toDense();
    PCHECK(g.size() == l.n, "{} elements instead of {}", g.size(), l.n);
    for (int i = 0; i < l.n; ++i) {
      PCHECK(close(g[i], want[i], 4 * sum.terms.size()), "round {}: df/dx{} is {:.17g} instead of {:.17g}", round, i, g[i], (double)want[i]);
      if (symbolic) {
        double v = sym[i].value();
        PCHECK(close(v, want[i], 4 * sum.terms.size()), "round {}: symbolic df/dx{} is {:.17g} instead of {:.17g}", round, i, v, (double)want[i]);
      }
    }
  }
}

PROPERTY("large_jacobians", "at least 16 rows") {
  Large l{c, log_range(c, 2, 300)};
  int rows = log_range(c, 1, 300);
  pbt::Case r = sub(c);
  // Mostly linear, mostly nonlinear, or a mix of rows
  int mix = c.range(0, 2), most = log_range(c, 1, 60);
  VM F(rows, 1);
  std::vector<Sum> sums;
  for (int i = 0; i < rows; ++i) {
    int degree = mix == 0 ? (r.chance(1, 8) ? 9 : 1) : mix == 1 ? (r.chance(1, 8) ? 1 : 9) : r.pick({1, 2, 9});
    sums.push_back(l.gen(r, r.range(1, most), degree));
    F[i] = l.build(sums.back());
  }
  c.note("{} rows, {} variables", rows, l.n);
  c.nontrivial(rows >= 16);
  c.label(std::format("2^{} rows", std::bit_width(static_cast<unsigned>(rows))));
  VM w(l.n, 1);
  for (int i = 0; i < l.n; ++i) w[i] = l.x[i];
  slp::Jacobian jac{F, w};
  bool symbolic = rows * l.n <= 4000 && c.coin();
  VM sym;
  if (symbolic) sym = jac.get();
  for (int round = 0; round < 3; ++round) {
    l.set(r, round == 0);
    Eigen::MatrixXd J = jac.value().toDense();
    PCHECK(J.rows() == rows && J.cols() == l.n, "{}x{} instead of {}x{}", J.rows(), J.cols(), rows, l.n);
    for (int i = 0; i < rows; ++i) {
      auto want = sums[i].gradient(l.xv, l.si, l.sj);
      for (int k = 0; k < l.n; ++k) {
        PCHECK(close(J(i, k), want[k], 4 * sums[i].terms.size()), "round {}: dF{}/dx{} is {:.17g} instead of {:.17g}", round, i, k, J(i, k), (double)want[k]);
        if (symbolic) {
          double v = sym[i, k].value();
          PCHECK(close(v, want[k], 4 * sums[i].terms.size()), "round {}: symbolic dF{}/dx{} is {:.17g} instead of {:.17g}", round, i, k, v, (double)want[k]);
        }
      }
    }
  }
}

PROPERTY("large_hessians", "at least 16 variables") {
  Large l{c, log_range(c, 2, 320)};
  pbt::Case r = sub(c);
  Sum sum = l.gen(r, log_range(c, 1, 1000), c.chance(1, 4) ? 2 : 9);
  c.note("{} terms of {} variables, shape {}", sum.terms.size(), l.n, sum.shape);
  c.nontrivial(l.n >= 16);
  c.label(std::format("2^{} variables", std::bit_width(static_cast<unsigned>(l.n))));
  V f = l.build(sum);
  VM w(l.n, 1);
  for (int i = 0; i < l.n; ++i) w[i] = l.x[i];
  slp::Hessian<double> full{f, w};
  slp::Hessian<double, Eigen::Lower> lower{f, w};
  bool symbolic = l.n <= 40 && c.coin();
  VM sym;
  if (symbolic) sym = full.get();
  for (int round = 0; round < 3; ++round) {
    l.set(r, round == 0);
    auto want = sum.hessian(l.xv, l.si, l.sj);
    Eigen::MatrixXd H = full.value().toDense(), L = lower.value().toDense();
    PCHECK(H.rows() == l.n && H.cols() == l.n && L.rows() == l.n && L.cols() == l.n, "{}x{} and {}x{}", H.rows(), H.cols(), L.rows(), L.cols());
    for (int i = 0; i < l.n; ++i)
      for (int j = 0; j < l.n; ++j) {
        LD h = want[i * l.n + j];
        PCHECK(close(H(i, j), h, 20 * sum.terms.size()), "round {}: d2f/dx{}dx{} is {:.17g} instead of {:.17g}", round, i, j, H(i, j), (double)h);
        PCHECK(close(L(i, j), j <= i ? h : 0, 20 * sum.terms.size()), "round {}: lower d2f/dx{}dx{} is {:.17g} instead of {:.17g}", round, i, j, L(i, j), j <= i ? (double)h : 0.0);
        if (symbolic) {
          double v = sym[i, j].value();
          PCHECK(close(v, h, 20 * sum.terms.size()), "round {}: symbolic d2f/dx{}dx{} is {:.17g} instead of {:.17g}", round, i, j, v, (double)h);
        }
      }
  }
}

PROPERTY("large_types", "a sum of at least 1000 terms") {
  Large l{c, log_range(c, 2, 2000)};
  pbt::Case r = sub(c);
  int degree = c.range(0, 2);
  Sum sum = l.gen(r, log_range(c, 1, 100'000), degree);
  if (degree == 0)
    for (auto& t : sum.terms) t.kind = CONST;
  // One term of a higher degree, anywhere
  bool odd = c.coin();
  if (odd) {
    size_t at = c.pick({0, 1, 2}) == 0 ? 0 : r.draw(sum.terms.size());
    sum.terms[at].kind = r.coin() ? SINE : SHARED;
  }
  c.note("{} terms of {} variables, shape {}, degree {}{}", sum.terms.size(), l.n, sum.shape, degree, odd ? ", one nonlinear term" : "");
  c.nontrivial(sum.terms.size() >= 1000);
  int deg = 0;
  for (auto& t : sum.terms) deg = std::max(deg, t.kind == CONST ? 0 : t.kind == LIN ? 1 : t.kind <= PRODUCT ? 2 : 3);
  static const T types[] = {T::CONSTANT, T::LINEAR, T::QUADRATIC, T::NONLINEAR};
  V f = l.build(sum);
  PCHECK(f.type() == types[deg], "reported as {} where the highest degree is {}", static_cast<int>(f.type()), deg);
}
