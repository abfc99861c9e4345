// P43: misuse is refused. Compiled the way the Python bindings are, where a
// failed precondition throws.
#include <Eigen/Dense>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_block.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

#include <climits>
#include <memory>
#include <optional>
#include <unsupported/Eigen/MatrixFunctions>

#include "pbt.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Sparse = Eigen::SparseMatrix<double>;
using SparseV = Eigen::SparseVector<double>;
using slp::Slice;
using pbt::Case;

namespace {

enum Kind { MATRIX, CONST_MATRIX, BLOCK, CONST_BLOCK, EIGEN };

/// A matrix, part of one, or an Eigen matrix
struct Opnd {
  Kind kind = MATRIX;
  VM host;
  Mat e;
  int r0 = 0, c0 = 0, rs = 1, cs = 1, h = 0, w = 0;

  int rows() const { return h; }
  int cols() const { return w; }
  Slice rslice() const { return Slice(r0, r0 + h * rs, rs); }
  Slice cslice() const { return Slice(c0, c0 + w * cs, cs); }
  VB view() { return host[rslice(), h, cslice(), w]; }

  V& at(int r, int c) { return host[r0 + r * rs, c0 + c * cs]; }
  Mat value() {
    if (kind == EIGEN) return e;
    Mat m(h, w);
    for (int i = 0; i < h; ++i)
      for (int j = 0; j < w; ++j) m(i, j) = at(i, j).value();
    return m;
  }
  std::string str() const {
    static const char* names[] = {"matrix", "const matrix", "block", "const block", "Eigen matrix"};
    return std::format("{}x{} {}{}", h, w, names[kind],
                       kind == BLOCK || kind == CONST_BLOCK ? std::format(" (at {}, {} with steps {}, {} of a {}x{} matrix)", r0, c0, rs, cs, host.rows(), host.cols()) : "");
  }
};

template <typename F>
void on(Opnd& o, F&& f) {
  if (o.kind == MATRIX) {
    f(o.host);
  } else if (o.kind == CONST_MATRIX) {
    f(std::as_const(o.host));
  } else if (o.kind == BLOCK) {
    VB b = o.view();
    f(b);
  } else if (o.kind == CONST_BLOCK) {
    CVB b = std::as_const(o.host)[o.rslice(), o.h, o.cslice(), o.w];
    f(b);
  } else {
    f(o.e);
  }
}
/// Without Eigen matrices
template <typename F>
void on_ours(Opnd& o, F&& f) {
  on(o, [&](auto& x) {
    if constexpr (!slp::EigenMatrixLike<std::decay_t<decltype(x)>>) f(x);
  });
}
/// Only what can be changed
template <typename F>
void on_mutable(Opnd& o, F&& f) {
  on(o, [&](auto& x) {
    if constexpr (std::is_same_v<decltype(x), VM&> || std::is_same_v<decltype(x), VB&>) f(x);
  });
}

double gen_value(Case& c) { return c.chance(1, 4) ? c.pick({0.0, 1.0, -1.0, 2.0}) : c.grid(-3, 3); }

VM gen_host(Case& c, int h, int w) {
  VM m(h, w);
  for (int i = 0; i < h; ++i)
    for (int j = 0; j < w; ++j) {
      V x;
      x.set_value(gen_value(c));
      m[i, j] = c.chance(1, 6) ? V{gen_value(c)} : x;
    }
  return m;
}

Opnd gen(Case& c, int h, int w, std::initializer_list<Kind> kinds) {
  Opnd o;
  o.kind = c.pick(kinds);
  o.h = h;
  o.w = w;
  if (o.kind == EIGEN) {
    o.e = Mat(h, w);
    for (int i = 0; i < h; ++i)
      for (int j = 0; j < w; ++j) o.e(i, j) = gen_value(c);
    return o;
  }
  if (o.kind == MATRIX || o.kind == CONST_MATRIX) {
    o.host = gen_host(c, h, w);
    return o;
  }
  // What is beside the block must not make up for what the block lacks
  auto place = [&](int n, int& start, int& step) {
    step = c.weighted({6, 2, 1}) == 0 ? 1 : c.pick({2, -1, -2});
    int before = c.draw(3), after = c.draw(3), len = n ? (n - 1) * std::abs(step) + 1 : 0;
    start = step > 0 ? before : before + std::max(len - 1, 0);
    return before + len + after;
  };
  int H = place(h, o.r0, o.rs), W = place(w, o.c0, o.cs);
  o.host = gen_host(c, H, W);
  return o;
}

int gen_dim(Case& c) { return c.weighted({1, 5, 5, 4, 2}); }
/// Mostly n itself, otherwise anything
int near(Case& c, int n) { return c.chance(2, 3) ? n : gen_dim(c); }
/// An index into n elements, with some too large and some negative
int gen_index(Case& c, int n) {
  switch (c.weighted({6, 2, 2, 1})) {
    case 0: return n > 0 ? static_cast<int>(c.draw(n)) : 0;
    case 1: return n + static_cast<int>(c.draw(3));
    case 2: return -1 - static_cast<int>(c.draw(std::max(n, 1) + 1));
    default: return c.pick({INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 20, -(1 << 20), 1 << 16});
  }
}
/// Whether 0 <= i < n
bool inside(int i, int n) { return i >= 0 && i < n; }

/// Everything that can be seen of a matrix
struct Snapshot {
  int rows, cols;
  std::vector<std::pair<slp::ExpressionType, double>> cells;
  bool operator==(const Snapshot&) const = default;
};
Snapshot snap(VM& m) {
  Snapshot s{m.rows(), m.cols(), {}};
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) s.cells.emplace_back(m[i, j].type(), m[i, j].value());
  return s;
}

struct Ctx {
  Case& c;
  std::vector<Opnd*> seen;
  int refused = 0, accepted = 0;

  /// Runs an operation that is refused exactly if it's invalid and changes nothing when it's refused
  template <typename F>
  bool run(bool valid, const std::string& what, F&& f) {
    c.note("{}: {}", what, valid ? "valid" : "invalid");
    std::vector<Snapshot> before;
    std::vector<Mat> eigen;
    for (Opnd* o : seen) before.push_back(snap(o->host)), eigen.push_back(o->e);
    bool threw = false;
    try {
      f();
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    PCHECK(threw == !valid, "{} was {}", what, threw ? "refused although it is valid" : "accepted although it is invalid");
    if (threw) {
      ++refused;
      for (size_t i = 0; i < seen.size(); ++i)
        PCHECK(snap(seen[i]->host) == before[i] && seen[i]->e == eigen[i], "{} was refused but changed operand {}", what, i);
    } else {
      ++accepted;
    }
    return !threw;
  }
};

template <typename M>
Mat values(M&& m) {
  Mat r(m.rows(), m.cols());
  for (int i = 0; i < r.rows(); ++i)
    for (int j = 0; j < r.cols(); ++j) {
      V x = m[i, j];
      r(i, j) = x.value();
    }
  return r;
}

void close(const Mat& a, const Mat& b, const std::string& what) {
  PCHECK(a.rows() == b.rows() && a.cols() == b.cols(), "{} gave {}x{} instead of {}x{}", what, a.rows(), a.cols(), b.rows(), b.cols());
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      PCHECK(std::abs(a(i, j) - b(i, j)) <= 1e-12 * (100 + std::abs(b(i, j))), "{}: element {}, {} is {} instead of {}", what, i, j, a(i, j), b(i, j));
}

// Access ---------------------------------------------------------------------

void access(Ctx& x, Case& c) {
  Opnd o = gen(c, gen_dim(c), c.chance(1, 3) ? 1 : gen_dim(c), {MATRIX, CONST_MATRIX, BLOCK, CONST_BLOCK});
  x.seen = {&o};
  const int h = o.h, w = o.w;
  Mat ref = o.value();
  switch (c.draw(6)) {
    case 0: {
      int r = gen_index(c, h), k = gen_index(c, w);
      auto what = std::format("element {}, {} of a {}", r, k, o.str());
      c.label("element");
      on_ours(o, [&](auto& m) {
        double got = 0;
        if (x.run(inside(r, h) && inside(k, w), what, [&] { V v = m[r, k]; got = v.value(); }))
          PCHECK(got == ref(r, k), "{} is {} instead of {}", what, got, ref(r, k));
        if constexpr (std::is_same_v<decltype(m), VM&> || std::is_same_v<decltype(m), VB&>)
          if (x.run(inside(r, h) && inside(k, w), "value of " + what, [&] { got = m.value(r, k); }))
            PCHECK(got == ref(r, k), "{} is {} instead of {}", what, got, ref(r, k));
      });
      break;
    }
    case 1: {
      int i = gen_index(c, h * w);
      auto what = std::format("element {} of a {}", i, o.str());
      c.label("index");
      on_ours(o, [&](auto& m) {
        if constexpr (!std::is_same_v<decltype(m), CVB&>) {
          double got = 0;
          if (x.run(inside(i, h * w), what, [&] { V v = m[i]; got = v.value(); }))
            PCHECK(got == ref(i / w, i % w), "{} is {} instead of {}", what, got, ref(i / w, i % w));
        } else {
          double got = 0;
          if (x.run(inside(i, h * w), what, [&] { V v = std::as_const(m)[i]; got = v.value(); }))
            PCHECK(got == ref(i / w, i % w), "{} is {} instead of {}", what, got, ref(i / w, i % w));
        }
        if constexpr (std::is_same_v<decltype(m), VM&> || std::is_same_v<decltype(m), VB&>) {
          double got = 0;
          if (x.run(inside(i, h * w), "value of " + what, [&] { got = m.value(i); }))
            PCHECK(got == ref(i / w, i % w), "{} is {} instead of {}", what, got, ref(i / w, i % w));
        }
      });
      break;
    }
    case 2: {
      int r = gen_index(c, h + 1), k = gen_index(c, w + 1);
      int bh = c.chance(1, 2) && inside(r, h + 1) ? static_cast<int>(c.draw(h - r + 1)) : gen_index(c, h + 1);
      int bw = c.chance(1, 2) && inside(k, w + 1) ? static_cast<int>(c.draw(w - k + 1)) : gen_index(c, w + 1);
      bool valid = inside(r, h + 1) && inside(k, w + 1) && bh >= 0 && bw >= 0 && bh <= h - r && bw <= w - k;
      auto what = std::format("block of {}x{} at {}, {} of a {}", bh, bw, r, k, o.str());
      c.label("block");
      on_ours(o, [&](auto& m) {
        Mat got;
        if (x.run(valid, what, [&] { got = values(m.block(r, k, bh, bw)); })) close(got, ref.block(r, k, bh, bw), what);
      });
      break;
    }
    case 3: {
      int off = gen_index(c, h), len = c.chance(1, 2) && inside(off, h) ? static_cast<int>(c.draw(h - off + 1)) : gen_index(c, h + 1);
      // Whether an empty segment may start at the end isn't specified
      if (off == h && len == 0) break;
      bool valid = w == 1 && inside(off, h) && len >= 0 && len <= h - off;
      auto what = std::format("segment of {} at {} of a {}", len, off, o.str());
      c.label("segment");
      on_ours(o, [&](auto& m) {
        Mat got;
        if (x.run(valid, what, [&] { got = values(m.segment(off, len)); })) close(got, ref.block(off, 0, len, 1), what);
      });
      break;
    }
    case 4: {
      int r = gen_index(c, h);
      auto what = std::format("row {} of a {}", r, o.str());
      c.label("row");
      on_ours(o, [&](auto& m) {
        Mat got;
        if (x.run(inside(r, h), what, [&] { got = values(m.row(r)); })) close(got, ref.row(r), what);
      });
      break;
    }
    case 5: {
      int k = gen_index(c, w);
      auto what = std::format("column {} of a {}", k, o.str());
      c.label("col");
      on_ours(o, [&](auto& m) {
        Mat got;
        if (x.run(inside(k, w), what, [&] { got = values(m.col(k)); })) close(got, ref.col(k), what);
      });
      break;
    }
  }
}

void slices(Ctx& x, Case& c) {
  // A step of zero is the only mistake a slice can contain
  int start = c.range(-4, 4), stop = c.range(-4, 4);
  int step = c.chance(1, 3) ? 0 : c.pick({1, 2, -1, -2, INT_MAX, INT_MIN, 3});
  bool a = c.coin(), b = c.coin();
  slp::slicing::none_t _{};
  c.label("slice");
  x.seen = {};
  x.run(step != 0, std::format("slice {}:{}:{}", a ? std::to_string(start) : "", b ? std::to_string(stop) : "", step), [&] {
    if (a && b) Slice(start, stop, step);
    else if (a) Slice(start, _, step);
    else if (b) Slice(_, stop, step);
    else Slice(_, _, step);
  });
}

// Arithmetic -----------------------------------------------------------------

void arithmetic(Ctx& x, Case& c) {
  int h = gen_dim(c), w = gen_dim(c);
  int op = c.draw(3);
  Opnd a = gen(c, h, w, {MATRIX, BLOCK, CONST_MATRIX, CONST_BLOCK, EIGEN});
  Opnd b = op == 0 ? gen(c, near(c, w), gen_dim(c), {MATRIX, BLOCK, CONST_BLOCK, EIGEN}) : gen(c, near(c, h), near(c, w), {MATRIX, BLOCK, CONST_BLOCK, EIGEN});
  if (a.kind == EIGEN && b.kind == EIGEN) b = gen(c, b.h, b.w, {MATRIX, BLOCK});
  x.seen = {&a, &b};
  Mat A = a.value(), B = b.value();
  c.label(op == 0 ? "product" : op == 1 ? "sum" : "difference");
  auto what = std::format("{} {} {}", a.str(), "*+-"[op], b.str());
  on(a, [&](auto& l) {
    on(b, [&](auto& r) {
      if constexpr (!slp::EigenMatrixLike<std::decay_t<decltype(l)>> || !slp::EigenMatrixLike<std::decay_t<decltype(r)>>) {
        VM got;
        if (op == 0) {
          if (x.run(a.w == b.h, what, [&] { got = l * r; })) close(values(got), A * B, what);
        } else if (op == 1) {
          if (x.run(a.h == b.h && a.w == b.w, what, [&] { got = l + r; })) close(values(got), A + B, what);
        } else {
          if (x.run(a.h == b.h && a.w == b.w, what, [&] { got = l - r; })) close(values(got), A - B, what);
        }
      }
    });
  });
}

void compound(Ctx& x, Case& c) {
  int h = gen_dim(c), w = c.chance(1, 2) ? h : gen_dim(c);
  int op = c.draw(3);
  if (c.chance(1, 4)) h = w = 1;
  Opnd a = gen(c, h, w, {MATRIX, BLOCK});
  if (c.chance(1, 3)) {
    // Scalars are added to 1x1 matrices only, but scale any matrix
    double s = c.pick({0.5, 2.0, -1.0});
    bool ours = c.coin();
    V v;
    v.set_value(s);
    x.seen = {&a};
    Mat A = a.value();
    int k = c.draw(4);
    auto what = std::format("{} {}= {}", a.str(), "+-*/"[k], ours ? "a variable" : "a number");
    c.label(k < 2 ? "add scalar" : "scale");
    on_mutable(a, [&](auto& l) {
      if (x.run(k > 1 || (h == 1 && w == 1), what, [&] {
            if (k == 0) ours ? l += v : l += s;
            if (k == 1) ours ? l -= v : l -= s;
            if (k == 2) ours ? l *= v : l *= s;
            if (k == 3) ours ? l /= v : l /= s;
          }))
        close(values(l), k == 0 ? Mat(A.array() + s) : k == 1 ? Mat(A.array() - s) : k == 2 ? Mat(A * s) : Mat(A / s), what);
    });
    return;
  }
  Opnd b = op == 0 ? gen(c, near(c, w), near(c, w), {MATRIX, BLOCK, CONST_BLOCK, EIGEN}) : gen(c, near(c, h), near(c, w), {MATRIX, BLOCK, CONST_BLOCK, EIGEN});
  x.seen = {&a, &b};
  Mat A = a.value(), B = b.value();
  auto what = std::format("{} {}= {}", a.str(), "*+-"[op], b.str());
  c.label(op == 0 ? "product in place" : op == 1 ? "sum in place" : "difference in place");
  on_mutable(a, [&](auto& l) {
    on(b, [&](auto& r) {
      if (op == 0) {
        if (x.run(b.h == w && b.w == w, what, [&] { l *= r; })) close(values(l), A * B, what);
      } else if (op == 1) {
        if (x.run(b.h == h && b.w == w, what, [&] { l += r; })) close(values(l), A + B, what);
      } else {
        if (x.run(b.h == h && b.w == w, what, [&] { l -= r; })) close(values(l), A - B, what);
      }
    });
  });
}

void assign(Ctx& x, Case& c) {
  int h = gen_dim(c), w = gen_dim(c);
  if (c.chance(1, 4)) h = w = 1;
  Opnd a = gen(c, h, w, {MATRIX, BLOCK, BLOCK});
  const bool block = a.kind == BLOCK;
  int how = c.draw(block ? 7 : 3);
  Opnd b = gen(c, near(c, h), near(c, w), {how >= 3 && how <= 4 ? MATRIX : how == 5 ? BLOCK : EIGEN});
  bool same = b.h == h && b.w == w;
  bool one = h == 1 && w == 1;
  x.seen = {&a, &b};
  Mat B = b.value();
  double s = gen_value(c);
  auto what = std::format("{} = {}", a.str(), how == 1 || how == 6 ? "a scalar" : b.str());
  if (how == 0) {
    c.label("assign Eigen matrix");
    on_mutable(a, [&](auto& l) {
      if (x.run(same, what, [&] { l = b.e; })) close(values(l), B, what);
    });
  } else if (how == 1) {
    c.label("assign scalar");
    V v{s};
    bool ours = c.coin();
    on_mutable(a, [&](auto& l) {
      // A variable becomes a 1x1 matrix that replaces any other
      if constexpr (std::is_same_v<decltype(l), VM&>) {
        if (x.run(one, what, [&] { l = s; })) close(values(l), Mat::Constant(1, 1, s), what);
      } else {
        if (x.run(one, what, [&] { if (ours) l = v; else l = s; })) close(values(l), Mat::Constant(1, 1, s), what);
      }
    });
  } else if (how == 2) {
    c.label("set values");
    // Only independent variables are given values
    for (int i = 0; i < h; ++i)
      for (int j = 0; j < w; ++j) a.at(i, j) = V{}, a.at(i, j).set_value(gen_value(c));
    on_mutable(a, [&](auto& l) {
      if (x.run(same, "values of " + what, [&] { l.set_value(b.e); })) close(values(l), B, what);
    });
  } else if (block) {
    VB l = a.view();
    if (how == 3) {
      c.label("assign matrix");
      if (x.run(same, what, [&] { l = b.host; })) close(values(l), B, what);
    } else if (how == 4) {
      c.label("assign temporary matrix");
      VM copy = b.host;
      if (x.run(same, what, [&] { l = std::move(copy); })) close(values(l), B, what);
    } else if (how == 5) {
      c.label("assign block");
      VB r = b.view();
      bool move = c.coin();
      if (x.run(same, what, [&] { if (move) l = b.view(); else l = r; })) close(values(l), B, what);
    } else {
      c.label("set value");
      for (int i = 0; i < h; ++i)
        for (int j = 0; j < w; ++j) a.at(i, j) = V{}, a.at(i, j).set_value(gen_value(c));
      if (x.run(one, "value of " + what, [&] { l.set_value(s); })) close(values(l), Mat::Constant(1, 1, s), what);
    }
  }
}

// Construction ---------------------------------------------------------------

void construct(Ctx& x, Case& c) {
  x.seen = {};
  switch (c.draw(5)) {
    case 0: {
      // Rows of different lengths
      int h = c.range(0, 3), w = c.range(0, 3);
      bool ours = c.coin(), valid = true;
      std::vector<std::vector<double>> d;
      std::vector<std::vector<V>> v;
      std::string what = "matrix with rows of";
      for (int i = 0; i < h; ++i) {
        int n = c.chance(1, 6) ? c.range(0, 3) : w;
        valid &= i == 0 || n == static_cast<int>(d[0].size());
        d.emplace_back();
        v.emplace_back();
        for (int j = 0; j < n; ++j) d.back().push_back(gen_value(c)), v.back().push_back(V{d.back().back()});
        what += std::format(" {}", n);
      }
      c.label("rows");
      VM got;
      if (x.run(valid, what, [&] { got = ours ? VM(v) : VM(d); })) {
        Mat ref(h, h ? d[0].size() : 0);
        for (int i = 0; i < h; ++i)
          for (int j = 0; j < ref.cols(); ++j) ref(i, j) = d[i][j];
        close(values(got), ref, what);
      }
      break;
    }
    case 1: {
      double k = gen_value(c);
      V p{k}, q{2.0}, r{3.0};
      c.label("initializer list");
      int n = c.draw(6);
      VM got;
      Mat ref;
      bool valid = n == 0 || n == 3 || n == 5;
      if (x.run(valid, std::format("initializer list {}", n), [&] {
            switch (n) {
              case 0: got = VM{{p, q}, {q, r}}; break;
              case 1: got = VM{{p, q}, {r}}; break;
              case 2: got = VM{{p}, {q, r}}; break;
              case 3: got = VM{{p}, {q}, {r}}; break;
              case 4: got = VM{{p, q}, {q, r}, {r, p, q}}; break;
              case 5: got = VM{{p, q, r}}; break;
            }
          })) {
        if (n == 0) ref = Mat{{k, 2}, {2, 3}};
        if (n == 3) ref = Vec{{k, 2, 3}};
        if (n == 5) ref = Mat{{k, 2, 3}};
        close(values(got), ref, "initializer list");
      }
      break;
    }
    case 2: {
      int h = c.range(0, 4), w = c.range(0, 4);
      int n = c.chance(1, 2) ? h * w : c.range(0, 16);
      std::vector<V> v;
      for (int i = 0; i < n; ++i) v.push_back(V{i + 1.0});
      c.label("array");
      auto what = std::format("{}x{} matrix of {} variables", h, w, n);
      VM got;
      if (x.run(n == h * w, what, [&] { got = VM(std::span<const V>(v), h, w); })) {
        Mat ref(h, w);
        for (int i = 0; i < n; ++i) ref(i / w, i % w) = i + 1;
        close(values(got), ref, what);
      }
      break;
    }
    case 3: {
      // Blocks which don't fit together
      int rows = c.range(0, 3), total = c.range(1, 4);
      bool valid = true;
      std::vector<std::vector<VM>> list;
      std::string what = "block matrix of";
      int H = 0, W = -1;
      std::vector<std::vector<Mat>> ref;
      for (int i = 0; i < rows; ++i) {
        int h = c.range(0, 3), left = total;
        list.emplace_back();
        ref.emplace_back();
        int sum = 0;
        what += " [";
        while (left > 0) {
          int w = c.range(1, left);
          left -= w;
          int hh = c.chance(1, 12) ? c.range(0, 3) : h;
          if (c.chance(1, 12)) w = c.range(0, 4);
          list.back().push_back(gen_host(c, hh, w));
          ref.back().push_back(values(list.back().back()));
          what += std::format(" {}x{}", hh, w);
          valid &= hh == list.back()[0].rows();
          sum += w;
        }
        what += " ]";
        H += list.back()[0].rows();
        if (W == -1) W = sum;
        valid &= sum == W;
      }
      c.label("blocks");
      VM got;
      if (x.run(valid, what, [&] { got = slp::block(list); })) {
        Mat m(H, std::max(W, 0));
        int r = 0;
        for (auto& row : ref) {
          int k = 0;
          for (auto& b : row) m.block(r, k, b.rows(), b.cols()) = b, k += b.cols();
          r += row[0].rows();
        }
        close(values(got), m, what);
      }
      if (rows == 2 && list[0].size() == 2 && list[1].size() == 1) {
        c.label("blocks in braces");
        VM& a = list[0][0];
        VM& b = list[0][1];
        VM& d = list[1][0];
        VM again;
        if (x.run(valid, what + " in braces", [&] { again = slp::block<double>({{a, b}, {d}}); })) close(values(again), values(got), what);
      }
      break;
    }
    case 4: {
      Opnd a = gen(c, c.chance(1, 2) ? 1 : gen_dim(c), c.chance(1, 2) ? 1 : gen_dim(c), {MATRIX, CONST_MATRIX, BLOCK, CONST_BLOCK});
      x.seen = {&a};
      Mat A = a.value();
      c.label("scalar of a matrix");
      auto what = std::format("variable made from a {}", a.str());
      on_ours(a, [&](auto& m) {
        double got = 0;
        if (x.run(a.h == 1 && a.w == 1, what, [&] { V v = m; got = v.value(); })) PCHECK(got == A(0, 0), "{} is {} instead of {}", what, got, A(0, 0));
      });
      break;
    }
  }
}

// Functions of matrices ------------------------------------------------------

void functions(Ctx& x, Case& c) {
  switch (c.draw(4)) {
    case 0: {
      int h = gen_dim(c), w = near(c, h);
      Opnd a = gen(c, h, w, {MATRIX, CONST_MATRIX, BLOCK, CONST_BLOCK});
      x.seen = {&a};
      c.label("exponential");
      auto what = std::format("exponential of a {}", a.str());
      if (h == 0 && w == 0) break;
      Mat A = a.value();
      on_ours(a, [&](auto& m) {
        VM got;
        if (x.run(h == w, what, [&] { got = m.exp(); })) {
          Mat ref = A.exp(), g = values(got);
          PCHECK(g.rows() == h && g.cols() == w, "{} is {}x{}", what, g.rows(), g.cols());
          PCHECK((g - ref).norm() <= 1e-8 * (1 + ref.norm()), "{} differs by {}", what, (g - ref).norm());
        }
      });
      break;
    }
    case 1: {
      int n = c.range(1, 5), k = c.range(1, 3);
      Opnd a = gen(c, n, n, {MATRIX});
      Opnd b = gen(c, near(c, n), k, {MATRIX});
      x.seen = {&a, &b};
      Mat A = a.value(), B = b.value();
      if (A.rows() && std::abs(A.determinant()) < 1e-2) break;
      c.label("solve");
      auto what = std::format("solution of a {} and a {}", a.str(), b.str());
      VM got;
      if (x.run(a.h == b.h, what, [&] { got = slp::solve(a.host, b.host); })) {
        Mat g = values(got);
        PCHECK(g.rows() == n && g.cols() == k, "{} is {}x{}", what, g.rows(), g.cols());
        PCHECK((A * g - B).norm() <= 1e-7 * (1 + A.norm() * g.norm()), "{} leaves {}", what, (A * g - B).norm());
      }
      break;
    }
    case 2: {
      int h = gen_dim(c), w = gen_dim(c);
      Opnd a = gen(c, h, w, {MATRIX});
      Opnd b = gen(c, near(c, h), near(c, w), {MATRIX});
      x.seen = {&a, &b};
      c.label("reduce");
      auto what = std::format("elementwise function of a {} and a {}", a.str(), b.str());
      Mat A = a.value(), B = b.value();
      VM got;
      int calls = 0;
      if (x.run(a.h == b.h && a.w == b.w, what, [&] {
            got = slp::cwise_reduce<double>(a.host, b.host, [&](const V& p, const V& q) {
              ++calls;
              return p - 2.0 * q;
            });
          }))
        close(values(got), A - 2 * B, what);
      else
        PCHECK(calls == 0, "{} was refused after {} calls", what, calls);
      break;
    }
    case 3: {
      int n = c.range(1, 3), w = c.chance(1, 2) ? 1 : c.range(2, 3);
      Opnd v = gen(c, n, w, {MATRIX});
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < w; ++j) v.at(i, j) = V{}, v.at(i, j).set_value(gen_value(c));
      x.seen = {&v};
      V f = 0.0;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < w; ++j) f = f + v.at(i, j) * v.at(i, j);
      int fw = c.chance(1, 2) ? 1 : 2;
      VM F(2, fw);
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < fw; ++j) F[i, j] = (i + j + 1.0) * f;
      Mat X = v.value();
      int which = c.draw(3);
      static const char* names[] = {"gradient", "Hessian", "Jacobian"};
      c.label(names[which]);
      auto what = std::format("{} of {} with respect to a {}", names[which], which == 2 ? std::format("a 2x{} matrix", fw) : "a variable", v.str());
      Mat got;
      if (x.run(w == 1 && (which != 2 || fw == 1), what, [&] {
            if (which == 0) got = slp::Gradient<double>(f, v.host).value();
            else if (which == 1) got = slp::Hessian<double>(f, v.host).value();
            else got = slp::Jacobian<double>(F, v.host).value();
          })) {
        Mat ref = which == 0 ? Mat(2 * X) : which == 1 ? Mat(2 * Mat::Identity(n, n)) : Mat(2, n);
        if (which == 2) ref << 2 * X.transpose(), 4 * X.transpose();
        close(got, ref, what);
      }
      break;
    }
  }
}

// Constraints ----------------------------------------------------------------

void constraints(Ctx& x, Case& c) {
  int h = gen_dim(c), w = gen_dim(c);
  Opnd a = gen(c, h, w, {MATRIX, BLOCK, EIGEN});
  Opnd b = gen(c, near(c, h), near(c, w), {MATRIX, BLOCK, EIGEN});
  if (a.kind == EIGEN && b.kind == EIGEN) b = gen(c, b.h, b.w, {MATRIX, BLOCK});
  int op = c.draw(6);
  x.seen = {&a, &b};
  static const char* names[] = {"==", "<=", ">=", "<", ">", "bounds"};
  if (op == 5) {
    // lower <= variables <= upper
    Opnd u = gen(c, near(c, b.h), near(c, b.w), {EIGEN});
    Opnd l = gen(c, near(c, b.h), near(c, b.w), {EIGEN});
    if (b.kind == EIGEN) b = gen(c, b.h, b.w, {MATRIX, BLOCK});
    x.seen = {&u, &l, &b};
    c.label("bounds");
    auto what = std::format("bounds {} <= {} <= {}", l.str(), b.str(), u.str());
    bool valid = l.h == b.h && l.w == b.w && u.h == b.h && u.w == b.w;
    on_ours(b, [&](auto& m) {
      size_t n = 0;
      if (x.run(valid, what, [&] { n = slp::bounds(l.e, m, u.e).constraints.size(); }))
        PCHECK(n == static_cast<size_t>(2 * b.h * b.w), "{} made {} constraints", what, n);
    });
    return;
  }
  c.label("relation");
  auto what = std::format("{} {} {}", a.str(), names[op], b.str());
  bool valid = a.h == b.h && a.w == b.w;
  on(a, [&](auto& l) {
    on(b, [&](auto& r) {
      if constexpr (!slp::EigenMatrixLike<std::decay_t<decltype(l)>> || !slp::EigenMatrixLike<std::decay_t<decltype(r)>>) {
        size_t n = 0;
        if (x.run(valid, what, [&] {
              if (op == 0) n = (l == r).constraints.size();
              if (op == 1) n = (l <= r).constraints.size();
              if (op == 2) n = (l >= r).constraints.size();
              if (op == 3) n = (l < r).constraints.size();
              if (op == 4) n = (l > r).constraints.size();
            }))
          PCHECK(n == static_cast<size_t>(h * w), "{} made {} constraints", what, n);
      }
    });
  });
}

PROPERTY("misuse_matrices", "at least one operation was refused and at least one was accepted") {
  Ctx x{c};
  int n = c.range(1, 8);
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({6, 1, 4, 3, 4, 3, 3, 3})) {
      case 0: access(x, c); break;
      case 1: slices(x, c); break;
      case 2: arithmetic(x, c); break;
      case 3: compound(x, c); break;
      case 4: assign(x, c); break;
      case 5: construct(x, c); break;
      case 6: functions(x, c); break;
      case 7: constraints(x, c); break;
    }
  }
  if (x.refused && x.accepted) c.nontrivial();
}

// Solvers driven by matrices -------------------------------------------------

Sparse sparse(const Mat& m) { return m.sparseView(); }
SparseV sparse_vec(const Vec& v) { return v.sparseView(); }

PROPERTY("misuse_solvers", "the solve was refused because of a wrong size") {
  int n = c.range(1, 4), ne = c.range(0, 2), ni = c.range(0, 3);
  int which = c.draw(3);
  if (which == 0) ne = ni = 0;
  if (which == 1) ni = 0;
  // Problems without inequality constraints are for the other solvers
  if (which == 2) ni = std::max(ni, 1);
  ne = std::min(ne, n);
  // Sizes that the functions return; at most one of them is wrong
  int g = n, hr = n, hc = n, ce = ne, er = ne, ec = n, ci = ni, ir = ni, ic = n;
  std::vector<int*> sizes{&g, &hr, &hc};
  if (which > 0) sizes.insert(sizes.end(), {&ce, &er, &ec});
  if (which > 1) sizes.insert(sizes.end(), {&ci, &ir, &ic});
  bool wrong = c.chance(2, 3);
  int at = c.draw(sizes.size());
  if (wrong) {
    int& s = *sizes[at];
    s += s > 0 && c.coin() ? -1 : c.range(1, 2);
  }
  static const char* solver[] = {"newton", "sqp", "interior_point"};
  static const char* part[] = {"gradient", "rows of the Hessian", "columns of the Hessian", "equality constraints", "rows of the equality Jacobian", "columns of the equality Jacobian",
                               "inequality constraints", "rows of the inequality Jacobian", "columns of the inequality Jacobian"};
  c.note("{} with {} variables, {} equality and {} inequality constraints{}", solver[which], n, ne, ni, wrong ? std::format("; {} instead of {}", *sizes[at], part[at]) : "");
  c.label(solver[which]);
  if (wrong) c.label(part[at]);

  // Half the squared distance to target, with x_i = start_i for the equality and x_i >= -10 for the inequality constraints
  Vec target(n), start(n);
  for (int i = 0; i < n; ++i) target[i] = c.grid(-2, 2), start[i] = c.grid(-2, 2);
  auto H = [&](int r, int k) {
    Mat m = Mat::Zero(r, k);
    for (int i = 0; i < std::min(r, k); ++i) m(i, i) = 1;
    return sparse(m);
  };
  auto pad = [](const Vec& v, int k) {
    Vec r = Vec::Ones(k);
    for (int i = 0; i < std::min<int>(k, v.size()); ++i) r[i] = v[i];
    return r;
  };
  auto f = [&](const Vec& x) { return 0.5 * (x - target).squaredNorm(); };
  auto grad = [&](const Vec& x) { return sparse_vec(pad(x - target, g)); };
  auto c_e = [&](const Vec& x) { return pad((x - start).head(ne), ce); };
  auto A_e = [&](const Vec&) { return H(er, ec); };
  auto c_i = [&](const Vec& x) {
    Vec v(ni);
    for (int i = 0; i < ni; ++i) v[i] = x[i % n] + 10;
    return pad(v, ci);
  };
  auto A_i = [&](const Vec&) {
    Mat m = Mat::Zero(ir, ic);
    for (int i = 0; i < ir; ++i)
      if (i % n < ic) m(i, i % n) = 1;
    return sparse(m);
  };
  Vec x = start;
  bool threw = false;
  int returned = 0;
  auto hess = [&](auto&&...) { return H(hr, hc); };
  auto zero = [&](auto&&...) { return sparse(Mat::Zero(hr, hc)); };
  slp::Options options;
  options.max_iterations = 30;
  auto common = [&](auto& k) {
    k.num_decision_variables = n;
    k.f = f;
    k.g = grad;
    k.H = hess;
    k.scaling = {1.0, Vec::Ones(ne), Vec::Ones(ni)};
    if constexpr (requires { k.c_e; }) {
      k.num_equality_constraints = ne;
      k.H_c = zero;
      k.c_e = c_e;
      k.A_e = A_e;
    }
    if constexpr (requires { k.c_i; }) {
      k.num_inequality_constraints = ni;
      k.c_i = c_i;
      k.A_i = A_i;
    }
  };
  try {
    if (which == 0) {
      slp::NewtonMatrixCallbacks<double> k;
      common(k);
      returned = static_cast<int>(slp::newton<double>(k, {}, options, x));
    } else if (which == 1) {
      slp::SQPMatrixCallbacks<double> k;
      common(k);
      returned = static_cast<int>(slp::sqp<double>(k, {}, options, x));
    } else {
      slp::InteriorPointMatrixCallbacks<double> k;
      common(k);
      returned = static_cast<int>(slp::interior_point<double>(k, {}, options, x));
    }
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  PCHECK(threw == wrong, "{} {}", solver[which], threw ? "refused matrices of the right sizes" : std::format("accepted {} instead of {}", *sizes[at], part[at]));
  if (wrong)
    PCHECK(x == start, "a refused solve changed the point");
  else
    PCHECK(returned == 0, "{} ended with {}", solver[which], returned);
  c.nontrivial(wrong);
}

PROPERTY("misuse_ocp", "direct collocation of discrete dynamics was refused") {
  int nx = c.range(1, 2), nu = c.range(1, 2), steps = c.range(1, 3);
  auto type = c.pick({slp::DynamicsType::DISCRETE, slp::DynamicsType::EXPLICIT_ODE});
  auto timestep = c.pick({slp::TimestepMethod::FIXED, slp::TimestepMethod::VARIABLE, slp::TimestepMethod::VARIABLE_SINGLE});
  auto method = c.pick({slp::TranscriptionMethod::DIRECT_TRANSCRIPTION, slp::TranscriptionMethod::DIRECT_COLLOCATION, slp::TranscriptionMethod::SINGLE_SHOOTING});
  bool valid = method != slp::TranscriptionMethod::DIRECT_COLLOCATION || type == slp::DynamicsType::EXPLICIT_ODE;
  c.note("{} states, {} inputs, {} steps, dynamics {}, timestep {}, method {}", nx, nu, steps, static_cast<int>(type), static_cast<int>(timestep), static_cast<int>(method));
  bool threw = false;
  try {
    slp::OCP<double> problem(nx, nu, std::chrono::duration<double>{0.1}, steps,
                             [](const VM& x, const VM&) { return x * 0.5; }, type, timestep, method);
    PCHECK(problem.X().rows() == nx && problem.X().cols() == steps + 1, "{}x{} states", problem.X().rows(), problem.X().cols());
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  PCHECK(threw == !valid, "{}", threw ? "refused although it is valid" : "accepted although it is invalid");
  c.nontrivial(!valid);
}

}  // namespace
