// P10-P13: matrix views, matrix arithmetic, linear solves and matrix
// exponentials, constraint construction
#include <Eigen/Dense>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/variable_block.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/scope_exit.hpp>

#include <deque>
#include <memory>
#include <optional>
#include <unsupported/Eigen/MatrixFunctions>

#include "pbt.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using Mat = Eigen::MatrixXd;
using LD = long double;
using pbt::Case;

namespace {

enum NodeOp { LEAF, CONST, ADD, SUB, MUL, DIV, NEG, SIN };
struct Node {
  NodeOp op;
  int a, b;
  double k;
};

/// Reference: expression nodes evaluated in long double with magnitudes
struct Dag {
  std::vector<Node> n;
  std::vector<double> leaf;
  int lf(double v) {
    leaf.push_back(v);
    n.push_back({LEAF, -1, -1, static_cast<double>(leaf.size() - 1)});
    return size();
  }
  int size() { return static_cast<int>(n.size()) - 1; }
  int k(double v) {
    n.push_back({CONST, -1, -1, v});
    return size();
  }
  int op(NodeOp o, int a, int b = -1) {
    n.push_back({o, a, b, 0});
    return size();
  }
  bool is_leaf(int i) const { return n[i].op == LEAF; }
  mutable std::vector<LD> v, m;
  void eval() const {
    v.resize(n.size());
    m.resize(n.size());
    for (size_t i = 0; i < n.size(); ++i) {
      auto& q = n[i];
      switch (q.op) {
        case LEAF: v[i] = leaf[static_cast<int>(q.k)]; m[i] = std::abs(v[i]); break;
        case CONST: v[i] = q.k; m[i] = std::abs(v[i]); break;
        case ADD: v[i] = v[q.a] + v[q.b]; m[i] = m[q.a] + m[q.b]; break;
        case SUB: v[i] = v[q.a] - v[q.b]; m[i] = m[q.a] + m[q.b]; break;
        case MUL: v[i] = v[q.a] * v[q.b]; m[i] = m[q.a] * m[q.b]; break;
        case DIV: v[i] = v[q.a] / v[q.b]; m[i] = m[q.a] / std::abs(v[q.b]) * (m[q.b] / std::abs(v[q.b])); break;
        case NEG: v[i] = -v[q.a]; m[i] = m[q.a]; break;
        case SIN: v[i] = std::sin(v[q.a]); m[i] = 1 + m[q.a]; break;
      }
    }
  }
};

/// Reference matrix of nodes
struct MM {
  int r = 0, c = 0;
  std::vector<int> e;
  MM() = default;
  MM(int r, int c) : r{r}, c{c}, e(static_cast<size_t>(r) * c, -1) {}
  int& at(int i, int j) { return e[static_cast<size_t>(i) * c + j]; }
  int at(int i, int j) const { return e[static_cast<size_t>(i) * c + j]; }
};

/// Reference view: rows and columns of a matrix
struct MV {
  MM* m;
  std::vector<int> ri, ci;
  explicit MV(MM& mm) : m{&mm} {
    for (int i = 0; i < mm.r; ++i) ri.push_back(i);
    for (int i = 0; i < mm.c; ++i) ci.push_back(i);
  }
  int r() const { return static_cast<int>(ri.size()); }
  int c() const { return static_cast<int>(ci.size()); }
  int& at(int i, int j) { return m->at(ri[i], ci[j]); }
  MM get() {
    MM q{r(), c()};
    for (int i = 0; i < r(); ++i)
      for (int j = 0; j < c(); ++j) q.at(i, j) = at(i, j);
    return q;
  }
  void set(const MM& q) {
    for (int i = 0; i < r(); ++i)
      for (int j = 0; j < c(); ++j) at(i, j) = q.at(i, j);
  }
};

/// Python's slice semantics
std::vector<int> py(int len, std::optional<int> start, std::optional<int> stop, std::optional<int> step_) {
  int step = step_.value_or(1);
  int lo = step < 0 ? -1 : 0, hi = step < 0 ? len - 1 : len;
  auto clampi = [&](int x) { return x < 0 ? std::max(x + len, lo) : std::min(x, hi); };
  int a = start ? clampi(*start) : (step < 0 ? hi : lo);
  int b = stop ? clampi(*stop) : (step < 0 ? lo : hi);
  std::vector<int> out;
  for (int i = a; step > 0 ? i < b : i > b; i += step) out.push_back(i);
  return out;
}

struct GenSlice {
  slp::Slice s;
  std::vector<int> idx;
  std::string str;
};
GenSlice gen_slice(Case& c, int len) {
  using slp::slicing::_;
  if (len > 0 && c.chance(1, 5)) {
    int i = c.range(-len, len - 1);
    return {slp::Slice(i), {i < 0 ? i + len : i}, std::format("{}", i)};
  }
  std::optional<int> a, b, s;
  if (c.coin()) a = c.range(-len - 2, len + 2);
  if (c.coin()) b = c.range(-len - 2, len + 2);
  if (c.coin()) s = c.pick({1, 2, -1, 3, -2, -3});
  GenSlice g;
  g.idx = py(len, a, b, s);
  g.str = std::format("{}:{}:{}", a ? std::to_string(*a) : "", b ? std::to_string(*b) : "", s ? std::to_string(*s) : "");
  if (a && b && s) g.s = slp::Slice(*a, *b, *s);
  else if (a && b) g.s = slp::Slice(*a, *b);
  else if (a && s) g.s = slp::Slice(*a, _, *s);
  else if (b && s) g.s = slp::Slice(_, *b, *s);
  else if (a) g.s = slp::Slice(*a, _);
  else if (b) g.s = slp::Slice(_, *b);
  else if (s) g.s = slp::Slice(_, _, *s);
  else g.s = c.coin() ? slp::Slice(_) : slp::Slice(_, _);
  return g;
}

struct World {
  Case& c;
  Dag d;
  std::vector<V> leaf;  // handles of the leaves
  std::deque<VM> mats;
  std::deque<MM> mods;
  explicit World(Case& c) : c{c} {}

  double val() { return c.num(3); }
  V new_leaf(int& node) {
    V v;
    double x = val();
    v.set_value(x);
    node = d.lf(x);
    leaf.push_back(v);
    return v;
  }
  /// A scalar with its node
  std::pair<V, int> scalar() {
    switch (leaf.empty() ? 1 : c.weighted({3, 2, 2})) {
      case 0: {
        int i = static_cast<int>(c.draw(leaf.size()));
        // node of leaf i
        for (size_t q = 0; q < d.n.size(); ++q)
          if (d.n[q].op == LEAF && static_cast<int>(d.n[q].k) == i) return {leaf[i], static_cast<int>(q)};
        break;
      }
      case 1: {
        int n;
        V v = new_leaf(n);
        return {v, n};
      }
    }
    double k = c.pick({0.0, 1.0, -1.0, 2.0, 0.5, -3.0});
    return {V{k}, d.k(k)};
  }
  /// New matrix with leaves, constants and expressions
  void new_matrix(int r, int cc, bool leaves_only = false) {
    VM m(r, cc);
    MM q(r, cc);
    bool pure = leaves_only || c.coin();
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < cc; ++j) {
        if (pure) {
          double x = val();
          m[i, j].set_value(x);
          q.at(i, j) = d.lf(x);
          leaf.push_back(m[i, j]);
        } else {
          auto [v, n] = scalar();
          if (c.chance(1, 4)) {
            auto [v2, n2] = scalar();
            m[i, j] = v * v2;
            q.at(i, j) = d.op(MUL, n, n2);
          } else {
            m[i, j] = v;
            q.at(i, j) = n;
          }
        }
      }
    mats.push_back(std::move(m));
    mods.push_back(std::move(q));
  }
  Mat eigen(int r, int cc, MM& q) {
    Mat m(r, cc);
    q = MM(r, cc);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < cc; ++j) {
        m(i, j) = c.pick({0.0, 1.0, -1.0, 2.0, 0.5, -0.75});
        q.at(i, j) = d.k(m(i, j));
      }
    return m;
  }
  void update_leaves() {
    if (leaf.empty()) return;
    int k = c.range(1, static_cast<int>(std::min<size_t>(leaf.size(), 4)));
    for (int t = 0; t < k; ++t) {
      int i = static_cast<int>(c.draw(leaf.size()));
      double x = val();
      leaf[i].set_value(x);
      d.leaf[i] = x;
    }
  }
  void check_value(double got, int node, const char* what, int i, int j) {
    if (!(d.m[node] < 1e6L)) return;
    PCHECK(std::abs(got - d.v[node]) <= 1e-11L * (1 + d.m[node]), "{} element ({}, {}) is {} instead of {}", what, i, j, got, static_cast<double>(d.v[node]));
  }
  /// Checks a matrix or block against the reference
  template <typename T>
  void check(T& m, const MM& q, const char* what, bool eval = true) {
    PCHECK(m.rows() == q.r && m.cols() == q.c, "{} is {}x{} instead of {}x{}", what, m.rows(), m.cols(), q.r, q.c);
    PCHECK(static_cast<int>(m.size()) == q.r * q.c, "{}: size {} of {}x{}", what, m.size(), q.r, q.c);
    if (eval) d.eval();
    int form = c.range(0, 9);
    if (form == 0) {
      Mat v = m.value();
      PCHECK(v.rows() == q.r && v.cols() == q.c, "{}: values are {}x{}", what, v.rows(), v.cols());
      for (int i = 0; i < q.r; ++i)
        for (int j = 0; j < q.c; ++j) check_value(v(i, j), q.at(i, j), what, i, j);
    } else if (form == 1) {
      for (int i = 0; i < q.r * q.c; ++i) check_value(m.value(i), q.e[i], what, i / q.c, i % q.c);
    } else if (form == 2) {
      for (int i = 0; i < q.r * q.c; ++i) {
        V e = m[i];
        check_value(e.value(), q.e[i], what, i / q.c, i % q.c);
      }
    } else if (form == 3) {
      int i = 0;
      for (const auto& e : m) {
        V x = e;
        PCHECK(i < q.r * q.c, "{}: iteration yields too many elements", what);
        check_value(x.value(), q.e[i], what, i / q.c, i % q.c);
        ++i;
      }
      PCHECK(i == q.r * q.c, "{}: iteration yields {} elements", what, i);
    } else if (form == 4) {
      int i = q.r * q.c;
      for (auto it = m.rbegin(); it != m.rend(); ++it) {
        --i;
        PCHECK(i >= 0, "{}: reverse iteration yields too many elements", what);
        V x = *it;
        check_value(x.value(), q.e[i], what, i / q.c, i % q.c);
      }
      PCHECK(i == 0, "{}: reverse iteration stops early", what);
    } else if (form == 6) {
      int i = 0, n = q.r * q.c;
      const T& k = m;
      bool named = c.coin();
      for (auto it = named ? m.cbegin() : k.begin(); it != (named ? m.cend() : k.end()); it++) {
        PCHECK(i < n, "{}: const iteration yields too many elements", what);
        V x = *it;
        check_value(x.value(), q.e[i], what, i / q.c, i % q.c);
        ++i;
      }
      PCHECK(i == n, "{}: const iteration yields {} elements", what, i);
    } else if (form == 7) {
      int i = q.r * q.c;
      const T& k = m;
      bool named = c.coin();
      for (auto it = named ? m.crbegin() : k.rbegin(); it != (named ? m.crend() : k.rend()); ++it) {
        --i;
        PCHECK(i >= 0, "{}: reverse const iteration yields too many elements", what);
        V x = *it;
        check_value(x.value(), q.e[i], what, i / q.c, i % q.c);
      }
      PCHECK(i == 0, "{}: reverse const iteration stops early", what);
    } else if (form == 8) {
      // Back and forth
      int n = q.r * q.c, at = 0;
      auto it = m.begin();
      auto jt = std::as_const(m).begin();
      for (int step = 0; step < 6; ++step) {
        bool up = at == 0 || (at < n && c.coin());
        if (up && at == n) break;
        bool post = c.coin();
        auto old = it;
        auto got = up ? (post ? it++ : ++it) : (post ? it-- : --it);
        auto was = jt;
        auto gone = up ? (post ? jt++ : ++jt) : (post ? jt-- : --jt);
        PCHECK(post ? gone == was : gone == jt, "{}: the const iterator {} returns", what, up ? "increment" : "decrement");
        PCHECK(post ? got == old : got == it, "{}: the iterator {} returns", what, up ? "increment" : "decrement");
        at += up ? 1 : -1;
        PCHECK((it == m.end()) == (at == n) && (it == m.begin()) == (at == 0), "{}: iterator after a step to {}", what, at);
        PCHECK((jt == std::as_const(m).end()) == (at == n) && (jt == std::as_const(m).begin()) == (at == 0), "{}: const iterator after a step to {}", what, at);
        if (at < n) {
          V x = *it, y = *jt;
          check_value(x.value(), q.e[at], what, at / q.c, at % q.c);
          check_value(y.value(), q.e[at], what, at / q.c, at % q.c);
        }
      }
    } else {
      for (int i = 0; i < q.r; ++i)
        for (int j = 0; j < q.c; ++j) check_value(m.value(i, j), q.at(i, j), what, i, j);
    }
  }
  void check_all() {
    d.eval();
    for (size_t i = 0; i < mats.size(); ++i) check(mats[i], mods[i], "matrix", false);
  }
};

/// Calls f on the view, or on a const reference to it where it's a view of a const matrix
template <typename B, typename F>
B take(Case& c, B& b, F f) {
  if constexpr (std::is_same_v<B, CVB>) {
    if (c.coin()) {
      c.label("view of a const view");
      return f(std::as_const(b));
    }
  }
  return f(b);
}

/// One more view operation, on the matrix or block and on the reference. M is a matrix, const or not, or a view.
template <typename B, typename M>
B view_step(Case& c, M& b, MV& v, std::string& desc) {
  int r = v.r(), cc = v.c();
  auto sub = [](std::vector<int>& x, const std::vector<int>& idx) {
    std::vector<int> y;
    for (int i : idx) y.push_back(x[i]);
    x = y;
  };
  auto iota = [](int a, int n) {
    std::vector<int> x;
    for (int i = 0; i < n; ++i) x.push_back(a + i);
    return x;
  };
  auto call = [&](auto f) -> B {
    if constexpr (std::is_same_v<std::remove_const_t<M>, VM>) return f(b);
    else return take(c, b, f);
  };
  switch (c.weighted({3, 5, 2, 2, 2})) {
    case 1: {
      auto a = gen_slice(c, r), bb = gen_slice(c, cc);
      if (c.chance(1, 4)) {
        // Slices which were adjusted beforehand
        slp::Slice s = a.s, t = bb.s;
        int n = s.adjust(r), m = t.adjust(cc);
        desc += std::format("[{}, {}, {}, {}]", a.str, n, bb.str, m);
        sub(v.ri, a.idx);
        sub(v.ci, bb.idx);
        return call([&](auto& x) -> B { return x[s, n, t, m]; });
      }
      desc += std::format("[{}, {}]", a.str, bb.str);
      sub(v.ri, a.idx);
      sub(v.ci, bb.idx);
      return call([&](auto& x) -> B { return x[a.s, bb.s]; });
    }
    case 2:
      if (r > 0) {
        int i = c.range(0, r - 1);
        desc += std::format(".row({})", i);
        sub(v.ri, {i});
        return call([&](auto& x) -> B { return x.row(i); });
      }
      break;
    case 3:
      if (cc > 0) {
        int i = c.range(0, cc - 1);
        desc += std::format(".col({})", i);
        sub(v.ci, {i});
        return call([&](auto& x) -> B { return x.col(i); });
      }
      break;
    case 4:
      if (cc == 1 && r > 0) {
        int o = c.range(0, r - 1), n = c.range(0, r - o);
        desc += std::format(".segment({}, {})", o, n);
        sub(v.ri, iota(o, n));
        return call([&](auto& x) -> B { return x.segment(o, n); });
      }
      break;
    default:
      break;
  }
  int ro = c.range(0, r), co = c.range(0, cc), br = c.range(0, r - ro), bc = c.range(0, cc - co);
  desc += std::format(".block({}, {}, {}, {})", ro, co, br, bc);
  sub(v.ri, iota(ro, br));
  sub(v.ci, iota(co, bc));
  return call([&](auto& x) -> B { return x.block(ro, co, br, bc); });
}

}  // namespace

PROPERTY("matrix_views", "a nested view or one with a step other than 1 selects at least two elements and is assigned to") {
  World w{c};
  int nm = c.range(1, 3);
  for (int i = 0; i < nm; ++i) w.new_matrix(c.range(0, 5), c.range(0, 5));
  int steps = c.range(1, 10);
  for (int s = 0; s < steps; ++s) {
    int mi = static_cast<int>(c.draw(w.mats.size()));
    VM& m = w.mats[mi];
    MM& q = w.mods[mi];
    std::string desc = std::format("m{}", mi);
    MV v{q};
    // direct access to the matrix, or a chain of views
    if (c.chance(1, 5)) {
      const VM& cm = m;
      // const views
      if (q.r == 0 || q.c == 0) continue;
      int depth = c.range(0, 3);
      std::vector<std::unique_ptr<CVB>> chain;
      if (c.coin()) chain.push_back(std::make_unique<CVB>(cm));
      else chain.push_back(std::make_unique<CVB>(view_step<CVB>(c, cm, v, desc)));
      for (int k = 0; k < depth; ++k) chain.push_back(std::make_unique<CVB>(view_step<CVB>(c, *chain.back(), v, desc)));
      c.note("read const {}", desc);
      CVB& last = *chain.back();
      MM g = v.get();
      PCHECK(last.rows() == g.r && last.cols() == g.c, "const view is {}x{} instead of {}x{}", last.rows(), last.cols(), g.r, g.c);
      w.d.eval();
      for (int i = 0; i < g.r; ++i)
        for (int j = 0; j < g.c; ++j) {
          V x = last[i, j];
          w.check_value(x.value(), g.at(i, j), "const view", i, j);
        }
      VM copy{last};
      w.check(copy, g, "copy of const view");
      continue;
    }
    int depth = c.range(1, 3);
    std::vector<std::unique_ptr<VB>> chain;
    if (c.chance(1, 4)) chain.push_back(std::make_unique<VB>(m));
    else chain.push_back(std::make_unique<VB>(view_step<VB>(c, m, v, desc)));
    for (int k = 1; k < depth; ++k) chain.push_back(std::make_unique<VB>(view_step<VB>(c, *chain.back(), v, desc)));
    VB& b = *chain.back();
    MM g = v.get();
    PCHECK(b.rows() == g.r && b.cols() == g.c, "{} is {}x{} instead of {}x{}", desc, b.rows(), b.cols(), g.r, g.c);
    bool stepped = false;
    for (size_t i = 1; i < v.ri.size(); ++i) stepped |= v.ri[i] - v.ri[i - 1] != 1;
    for (size_t i = 1; i < v.ci.size(); ++i) stepped |= v.ci[i] - v.ci[i - 1] != 1;
    bool big = g.r * g.c >= 2 && (stepped || chain.size() > 1);
    if (stepped) c.label("stepped view");
    auto arith = [&](NodeOp op, const MM& rhs) {
      MM out{g.r, g.c};
      for (int i = 0; i < g.r; ++i)
        for (int j = 0; j < g.c; ++j) out.at(i, j) = w.d.op(op, g.at(i, j), rhs.at(i, j));
      v.set(out);
    };
    auto arith_s = [&](NodeOp op, int n) {
      MM out{g.r, g.c};
      for (int i = 0; i < g.r; ++i)
        for (int j = 0; j < g.c; ++j) out.at(i, j) = w.d.op(op, g.at(i, j), n);
      v.set(out);
    };
    switch (c.weighted({4, 3, 2, 2, 3, 3, 3, 2, 2, 2, 2, 2})) {
      case 0:
        c.note("read {}", desc);
        w.check(b, g, "view");
        break;
      case 1: {  // assign an Eigen matrix
        MM e;
        Mat x = w.eigen(g.r, g.c, e);
        c.note("{} = Eigen", desc);
        b = x;
        v.set(e);
        c.nontrivial(big);
        break;
      }
      case 2: {  // assign a matrix, by copy or move
        w.new_matrix(g.r, g.c);
        VM x = w.mats.back();
        MM e = w.mods.back();
        w.mats.pop_back();
        w.mods.pop_back();
        c.note("{} = matrix", desc);
        if (c.coin()) b = x;
        else b = std::move(x);
        v.set(e);
        c.nontrivial(big);
        break;
      }
      case 3: {  // assign a view of another matrix
        w.new_matrix(g.r + c.range(0, 2), g.c + c.range(0, 2));
        VM x = w.mats.back();
        MM e = w.mods.back();
        w.mats.pop_back();
        w.mods.pop_back();
        c.note("{} = view of another matrix", desc);
        int ro = e.r - g.r, co = e.c - g.c;
        MM part{g.r, g.c};
        for (int i = 0; i < g.r; ++i)
          for (int j = 0; j < g.c; ++j) part.at(i, j) = e.at(i + ro, j + co);
        if (c.coin()) b = x.block(ro, co, g.r, g.c);
        else {
          VB src = x.block(ro, co, g.r, g.c);
          b = src;
        }
        v.set(part);
        c.nontrivial(big);
        break;
      }
      case 4: {  // single elements
        if (g.r * g.c == 0) break;
        int i = c.range(0, g.r - 1), j = c.range(0, g.c - 1);
        auto [x, n] = w.scalar();
        c.note("{}[{}, {}] = scalar", desc, i, j);
        if (c.coin()) b[i, j] = x;
        else b[i * g.c + j] = x;
        v.at(i, j) = n;
        c.nontrivial(big);
        break;
      }
      case 5: {  // set values
        std::set<int> seen;
        bool ok = true;
        for (int n : g.e) ok &= w.d.is_leaf(n) && seen.insert(n).second;
        if (!ok) break;
        Mat x(g.r, g.c);
        for (int i = 0; i < g.r; ++i)
          for (int j = 0; j < g.c; ++j) {
            x(i, j) = w.val();
            w.d.leaf[static_cast<int>(w.d.n[g.at(i, j)].k)] = x(i, j);
          }
        c.note("{}.set_value", desc);
        if (g.r == 1 && g.c == 1 && c.coin()) b.set_value(x(0, 0));
        else if (g.r == q.r && g.c == q.c && !stepped && c.coin()) m.set_value(x);
        else b.set_value(x);
        c.nontrivial(big);
        break;
      }
      case 6: {  // compound with a matrix
        w.new_matrix(g.r, g.c);
        VM x = w.mats.back();
        MM e = w.mods.back();
        w.mats.pop_back();
        w.mods.pop_back();
        bool add = c.coin();
        c.note("{} {} matrix", desc, add ? "+=" : "-=");
        if (c.coin()) {
          MM ee;
          Mat y = w.eigen(g.r, g.c, ee);
          if (add) b += y;
          else b -= y;
          e = ee;
        } else if (add) b += x;
        else b -= x;
        arith(add ? ADD : SUB, e);
        c.nontrivial(big);
        break;
      }
      case 7: {  // compound with a scalar
        bool mul = c.coin();
        double k = c.pick({2.0, -1.0, 0.5, 1.0, 4.0});
        c.note("{} {} {}", desc, mul ? "*=" : "/=", k);
        int form = c.range(0, 2);
        if (form == 0) {
          if (mul) b *= k;
          else b /= k;
        } else if (form == 1) {
          V kv{k};
          if (mul) b *= kv;
          else b /= kv;
        } else {
          k = 2;
          if (mul) b *= 2;
          else b /= 2;
        }
        arith_s(mul ? MUL : DIV, w.d.k(k));
        c.nontrivial(big);
        break;
      }
      case 8: {  // multiply by a square matrix
        if (w.d.n.size() > 1500) break;
        MM e;
        Mat x = w.eigen(g.c, g.c, e);
        c.note("{} *= square matrix", desc);
        if (c.coin()) b *= x;
        else b *= VM{x};
        MM out{g.r, g.c};
        for (int i = 0; i < g.r; ++i)
          for (int j = 0; j < g.c; ++j) {
            int sum = w.d.k(0);
            for (int k = 0; k < g.c; ++k) sum = w.d.op(ADD, sum, w.d.op(MUL, g.at(i, k), e.at(k, j)));
            out.at(i, j) = sum;
          }
        v.set(out);
        c.nontrivial(big);
        break;
      }
      case 9: {  // copies are independent of the viewed matrix
        c.note("copy {}", desc);
        VM x{b};
        if (w.mats.size() < 5) {
          w.mats.push_back(x);
          w.mods.push_back(g);
        } else {
          w.check(x, g, "copy of view");
        }
        break;
      }
      case 10: {  // transpose and transform
        c.note("{}.T(), transform", desc);
        VM t = b.T();
        MM e{g.c, g.r};
        for (int i = 0; i < g.r; ++i)
          for (int j = 0; j < g.c; ++j) e.at(j, i) = g.at(i, j);
        w.check(t, e, "transpose of view");
        VM u = b.cwise_transform([](const V& x) { return slp::sin(x); });
        MM f{g.r, g.c};
        for (int i = 0; i < g.r * g.c; ++i) f.e[i] = w.d.op(SIN, g.e[i]);
        w.check(u, f, "transformed view");
        break;
      }
      case 11: {  // 1x1
        if (g.r != 1 || g.c != 1) break;
        c.note("{} as scalar", desc);
        V x = b;
        w.d.eval();
        w.check_value(x.value(), g.at(0, 0), "scalar view", 0, 0);
        double k = w.val();
        int form = c.range(0, 3);
        int n = w.d.k(k);
        if (form == 0) {
          b = k;
          v.at(0, 0) = n;
        } else if (form == 1) {
          b += k;
          v.at(0, 0) = w.d.op(ADD, g.at(0, 0), n);
        } else if (form == 2) {
          b -= V{k};
          v.at(0, 0) = w.d.op(SUB, g.at(0, 0), n);
        } else {
          b = V{k};
          v.at(0, 0) = n;
        }
        break;
      }
    }
    if (c.chance(1, 3)) w.check_all();
    if (c.chance(1, 3)) w.update_leaves();
  }
  w.update_leaves();
  w.check_all();
}

PROPERTY("matrix_arithmetic", "at least three matrix operations, one of them a product of matrices with an inner dimension above 1") {
  World w{c};
  int r = c.range(1, 4), cc = c.range(1, 4);
  w.new_matrix(r, cc);
  w.new_matrix(c.coin() ? r : cc, cc);
  int steps = c.range(2, 8);
  int ops = 0;
  bool prod = false;
  auto& d = w.d;
  auto mul = [&](const MM& a, const MM& b) {
    MM o{a.r, b.c};
    for (int i = 0; i < a.r; ++i)
      for (int j = 0; j < b.c; ++j) {
        int s = d.k(0);
        for (int k = 0; k < a.c; ++k) s = d.op(ADD, s, d.op(MUL, a.at(i, k), b.at(k, j)));
        o.at(i, j) = s;
      }
    prod |= a.c > 1 && a.r * b.c > 0;
    return o;
  };
  auto zip = [&](NodeOp op, const MM& a, const MM& b) {
    MM o{a.r, a.c};
    for (size_t i = 0; i < a.e.size(); ++i) o.e[i] = d.op(op, a.e[i], b.e[i]);
    return o;
  };
  auto sc = [&](NodeOp op, const MM& a, int n) {
    MM o{a.r, a.c};
    for (size_t i = 0; i < a.e.size(); ++i) o.e[i] = d.op(op, a.e[i], n);
    return o;
  };
  auto push = [&](VM&& m, MM q, const char* what) {
    c.note("m{} = {} ({}x{})", w.mats.size(), what, q.r, q.c);
    w.mats.push_back(std::move(m));
    w.mods.push_back(std::move(q));
    ++ops;
  };
  for (int s = 0; s < steps && d.n.size() < 3000; ++s) {
    int ai = static_cast<int>(c.draw(w.mats.size())), bi = static_cast<int>(c.draw(w.mats.size()));
    VM A = w.mats[ai], B = w.mats[bi];
    MM a = w.mods[ai], b = w.mods[bi];
    // a partner for the binary operations: another matrix of the right shape, made when needed
    auto partner = [&](int pr, int pc) {
      if (b.r != pr || b.c != pc) {
        w.new_matrix(pr, pc);
        B = w.mats.back();
        b = w.mods.back();
        w.mats.pop_back();
        w.mods.pop_back();
      }
    };
    switch (c.weighted({4, 3, 3, 3, 2, 2, 2, 4, 3, 2, 2, 2, 2})) {
      case 0: {
        partner(a.c, c.range(1, 3));
        int form = c.range(0, 4);
        if (form == 0) push(A * B, mul(a, b), "A * B");
        else if (form == 1) {
          MM e;
          Mat E = w.eigen(a.c, 2, e);
          push(A * E, mul(a, e), "A * Eigen");
        } else if (form == 2) {
          MM e;
          Mat E = w.eigen(2, b.r, e);
          push(E * B, mul(e, b), "Eigen * B");
        } else if (form == 3) push(A.block(0, 0, a.r, a.c) * B, mul(a, b), "block(A) * B");
        else push(A * B.block(0, 0, b.r, b.c), mul(a, b), "A * block(B)");
        break;
      }
      case 1: {
        partner(a.r, a.c);
        int form = c.range(0, 4);
        MM e;
        Mat E = w.eigen(a.r, a.c, e);
        if (form == 0) push(A + B, zip(ADD, a, b), "A + B");
        else if (form == 1) push(A + E, zip(ADD, a, e), "A + Eigen");
        else if (form == 2) push(E + A, zip(ADD, e, a), "Eigen + A");
        else if (form == 3) push(A.block(0, 0, a.r, a.c) + B, zip(ADD, a, b), "block(A) + B");
        else push(A + B.block(0, 0, a.r, a.c), zip(ADD, a, b), "A + block(B)");
        break;
      }
      case 2: {
        partner(a.r, a.c);
        int form = c.range(0, 4);
        MM e;
        Mat E = w.eigen(a.r, a.c, e);
        if (form == 0) push(A - B, zip(SUB, a, b), "A - B");
        else if (form == 1) push(A - E, zip(SUB, a, e), "A - Eigen");
        else if (form == 2) push(E - A, zip(SUB, e, a), "Eigen - A");
        else if (form == 3) push(A.block(0, 0, a.r, a.c) - B, zip(SUB, a, b), "block(A) - B");
        else push(A - B.block(0, 0, a.r, a.c), zip(SUB, a, b), "A - block(B)");
        break;
      }
      case 3: {  // scalar products
        double k = c.pick({0.0, 1.0, -1.0, 2.0, 0.5});
        auto [x, n] = w.scalar();
        MM e;
        Mat E = w.eigen(a.r, a.c, e);
        switch (c.range(0, 8)) {
          case 0: push(A * k, sc(MUL, a, d.k(k)), "A * number"); break;
          case 1: push(k * A, sc(MUL, a, d.k(k)), "number * A"); break;
          case 2: push(A * x, sc(MUL, a, n), "A * variable"); break;
          case 3: push(x * A, sc(MUL, a, n), "variable * A"); break;
          case 4: push(VM{E} * x, sc(MUL, e, n), "Eigen * variable"); break;
          case 5: push(x * VM{E}, sc(MUL, e, n), "variable * Eigen"); break;
          case 6: push(A * 3, sc(MUL, a, d.k(3)), "A * 3"); break;
          case 7: push(A.block(0, 0, a.r, a.c) * x, sc(MUL, a, n), "block(A) * variable"); break;
          default: push(-2 * A.block(0, 0, a.r, a.c), sc(MUL, a, d.k(-2)), "-2 * block(A)"); break;
        }
        break;
      }
      case 4: {  // quotients
        double k = c.pick({1.0, -1.0, 2.0, 0.5});
        MM e;
        Mat E = w.eigen(a.r, a.c, e);
        V x;
        x.set_value(k);
        int n = d.lf(k);
        w.leaf.push_back(x);
        // keep the divisor away from zero
        V y = x * x + 1.0;
        int ny = d.op(ADD, d.op(MUL, n, n), d.k(1));
        switch (c.range(0, 3)) {
          case 0: push(A / k, sc(DIV, a, d.k(k)), "A / number"); break;
          case 1: push(A / y, sc(DIV, a, ny), "A / variable"); break;
          case 2: push(VM{E} / y, sc(DIV, e, ny), "Eigen / variable"); break;
          default: push(A.block(0, 0, a.r, a.c) / y, sc(DIV, a, ny), "block(A) / variable"); break;
        }
        break;
      }
      case 5: {
        MM o{a.r, a.c};
        for (size_t i = 0; i < a.e.size(); ++i) o.e[i] = d.op(NEG, a.e[i]);
        if (c.coin()) push(-A, o, "-A");
        else push(-A.block(0, 0, a.r, a.c), o, "-block(A)");
        break;
      }
      case 6: {
        MM o{a.c, a.r};
        for (int i = 0; i < a.r; ++i)
          for (int j = 0; j < a.c; ++j) o.at(j, i) = a.at(i, j);
        push(A.T(), o, "A.T()");
        break;
      }
      case 7: {  // compound assignment, possibly aliased
        VM R = A;
        int form = c.range(0, 12);
        if (form <= 1) {  // product with a square matrix
          partner(a.c, a.c);
          if (form == 0) R *= B;
          else R *= B.block(0, 0, b.r, b.c);
          push(std::move(R), mul(a, b), "A *= B");
        } else if (form == 2 && a.r == a.c) {
          R *= R;
          push(std::move(R), mul(a, a), "A *= A");
          c.label("aliased compound");
        } else if (form == 3 && a.r == a.c) {
          R *= R.block(0, 0, a.r, a.c);
          push(std::move(R), mul(a, a), "A *= block(A)");
          c.label("aliased compound");
        } else if (form == 4 && a.r * a.c > 0) {
          int i = c.range(0, a.r * a.c - 1);
          R *= R[i];
          push(std::move(R), sc(MUL, a, a.e[i]), "A *= A[i]");
          c.label("aliased compound");
        } else if (form == 5) {
          R += R;
          push(std::move(R), zip(ADD, a, a), "A += A");
          c.label("aliased compound");
        } else if (form == 6) {
          R -= R;
          push(std::move(R), zip(SUB, a, a), "A -= A");
          c.label("aliased compound");
        } else if (form == 7) {
          partner(a.r, a.c);
          R += B;
          push(std::move(R), zip(ADD, a, b), "A += B");
        } else if (form == 8) {
          partner(a.r, a.c);
          R -= B.block(0, 0, a.r, a.c);
          push(std::move(R), zip(SUB, a, b), "A -= block(B)");
        } else if (form == 9) {
          MM e;
          Mat E = w.eigen(a.r, a.c, e);
          if (c.coin()) {
            R += E;
            push(std::move(R), zip(ADD, a, e), "A += Eigen");
          } else {
            R -= E;
            push(std::move(R), zip(SUB, a, e), "A -= Eigen");
          }
        } else if (form == 10) {
          double k = c.pick({2.0, -0.5});
          if (c.coin()) {
            R *= k;
            push(std::move(R), sc(MUL, a, d.k(k)), "A *= number");
          } else {
            R /= V{k};
            push(std::move(R), sc(DIV, a, d.k(k)), "A /= number");
          }
        } else if (form == 11) {
          MM e;
          Mat E = w.eigen(a.c, a.c, e);
          R *= E;
          push(std::move(R), mul(a, e), "A *= Eigen");
        } else if (a.r == 1 && a.c == 1) {
          double k = c.pick({2.0, -0.5});
          if (c.coin()) {
            R += k;
            push(std::move(R), sc(ADD, a, d.k(k)), "A += number");
          } else {
            R -= V{k};
            push(std::move(R), sc(SUB, a, d.k(k)), "A -= number");
          }
        }
        break;
      }
      case 8: {  // assembly from blocks
        int r2 = c.range(1, 2), c2 = c.range(1, 2);
        auto mk = [&](int rr, int qq, VM& m, MM& q) {
          w.new_matrix(rr, qq);
          m = w.mats.back();
          q = w.mods.back();
          w.mats.pop_back();
          w.mods.pop_back();
        };
        VM X, Y, Z;
        MM x, y, z;
        mk(a.r, c2, X, x);
        mk(r2, a.c, Y, y);
        mk(r2, c2, Z, z);
        MM o{a.r + r2, a.c + c2};
        auto put = [&](const MM& q, int ro, int co) {
          for (int i = 0; i < q.r; ++i)
            for (int j = 0; j < q.c; ++j) o.at(ro + i, co + j) = q.at(i, j);
        };
        put(a, 0, 0);
        put(x, 0, a.c);
        put(y, a.r, 0);
        put(z, a.r, a.c);
        switch (c.range(0, 2)) {
          case 0: push(slp::block<double>({{A, X}, {Y, Z}}), o, "block {{A, X}, {Y, Z}}"); break;
          case 1: {
            std::vector<std::vector<VM>> l{{A, X}, {Y, Z}};
            push(slp::block<double>(l), o, "block(vector)");
            break;
          }
          default: {
            // [[A, X], [W]] with one wide block
            VM W;
            MM wq;
            mk(r2, a.c + c2, W, wq);
            put(wq, a.r, 0);
            push(slp::block<double>({{A, X}, {W}}), o, "block {{A, X}, {W}}");
          }
        }
        break;
      }
      case 9: {  // constructors
        MM o{a.r, a.c};
        switch (c.range(0, 9)) {
          case 0:
            for (auto& e : o.e) e = d.k(0);
            push(VM::zero(a.r, a.c), o, "zero");
            break;
          case 1:
            for (auto& e : o.e) e = d.k(1);
            push(VM::one(a.r, a.c), o, "one");
            break;
          case 2:
            for (auto& e : o.e) e = d.k(-2.5);
            push(VM::constant(a.r, a.c, -2.5), o, "constant");
            break;
          case 3: {
            MM q{a.r, a.r};
            for (int i = 0; i < a.r; ++i)
              for (int j = 0; j < a.r; ++j) q.at(i, j) = d.k(i == j);
            push(VM::identity(a.r), q, "identity");
            break;
          }
          case 4: {
            Eigen::VectorXd dg(a.r);
            MM q{a.r, a.r};
            for (int i = 0; i < a.r; ++i) dg[i] = w.val();
            for (int i = 0; i < a.r; ++i)
              for (int j = 0; j < a.r; ++j) q.at(i, j) = d.k(i == j ? dg[i] : 0);
            push(VM{dg.asDiagonal()}, q, "diagonal");
            break;
          }
          case 5: {
            MM e;
            Mat E = w.eigen(a.r, a.c, e);
            push(VM{E}, e, "Eigen");
            break;
          }
          case 6: {
            std::vector<V> l;
            MM q{a.r, a.c};
            for (auto& e : q.e) {
              auto [x, n] = w.scalar();
              l.push_back(x);
              e = n;
            }
            if (c.coin()) {
              push(VM{std::span<const V>{l}, a.r, a.c}, q, "span");
            } else {
              q.r = a.r * a.c;
              q.c = 1;
              push(VM{std::span<const V>{l}}, q, "span column");
            }
            break;
          }
          case 7: {
            std::vector<std::vector<V>> l;
            std::vector<std::vector<double>> ld;
            MM q{a.r, a.c}, qd{a.r, a.c};
            for (int i = 0; i < a.r; ++i) {
              l.emplace_back();
              ld.emplace_back();
              for (int j = 0; j < a.c; ++j) {
                auto [x, n] = w.scalar();
                l.back().push_back(x);
                q.at(i, j) = n;
                ld.back().push_back(w.val());
                qd.at(i, j) = d.k(ld.back().back());
              }
            }
            if (c.coin()) push(VM{l}, q, "nested lists of variables");
            else push(VM{ld}, qd, "nested lists of numbers");
            break;
          }
          case 8: {
            auto [x1, n1] = w.scalar();
            auto [x2, n2] = w.scalar();
            auto [x3, n3] = w.scalar();
            auto [x4, n4] = w.scalar();
            auto [x5, n5] = w.scalar();
            auto [x6, n6] = w.scalar();
            MM q{3, 2};
            q.e = {n1, n2, n3, n4, n5, n6};
            push(VM{{x1, x2}, {x3, x4}, {x5, x6}}, q, "nested initializer list");
            break;
          }
          default: {
            auto [x, n] = w.scalar();
            MM q{1, 1};
            q.e = {n};
            push(VM{x}, q, "scalar");
            break;
          }
        }
        break;
      }
      case 10: {  // coefficient-wise
        partner(a.r, a.c);
        if (c.coin()) {
          push(slp::cwise_reduce<double>(A, B, [](const V& x, const V& y) { return x - y * 2.0; }), zip(SUB, a, sc(MUL, b, d.k(2))), "cwise_reduce");
        } else {
          MM o{a.r, a.c};
          for (size_t i = 0; i < a.e.size(); ++i) o.e[i] = d.op(SIN, a.e[i]);
          push(A.cwise_transform([](const V& x) { return slp::sin(x); }), o, "cwise_transform");
        }
        break;
      }
      case 11: {  // Eigen round trip
        auto E = A.to_eigen();
        PCHECK(E.rows() == a.r && E.cols() == a.c, "to_eigen is {}x{}", E.rows(), E.cols());
        push(VM{E}, a, "to_eigen");
        break;
      }
      default: {  // assignment to an existing matrix
        MM e;
        Mat E = w.eigen(a.r, a.c, e);
        VM R = A;
        R = E;
        push(std::move(R), e, "A = Eigen");
        if (a.r == 1 && a.c == 1) {
          VM S = A;
          S = 3.5;
          MM q{1, 1};
          q.e = {d.k(3.5)};
          push(std::move(S), q, "A = 3.5");
          V x = A;
          d.eval();
          w.check_value(x.value(), a.e[0], "scalar conversion", 0, 0);
        }
      }
    }
    if (c.chance(1, 4)) w.check_all();
    if (c.chance(1, 4)) w.update_leaves();
  }
  w.check_all();
  w.update_leaves();
  w.check_all();
  c.nontrivial(ops >= 3 && prod);
}

namespace {
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
}

PROPERTY("linear_solve", "at least a 2x2 system, checked again after its entries were changed") {
  int n = c.weighted({2, 4, 4, 5, 4, 2}) + 1, p = c.range(1, 3);
  bool lsq = n < 6 && c.chance(1, 10);
  int m = lsq ? n + c.range(1, 2) : n;
  // A: row-permuted, diagonally dominant or orthogonal-like, always well conditioned
  VM A(m, n), B(m, p);
  Mat a(m, n), b(m, p);
  std::vector<char> fixed(static_cast<size_t>(m) * n + static_cast<size_t>(m) * p);
  bool qr = !(m == n && n <= 4);
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[c.draw(i + 1)]);
  if (qr) for (int i = 0; i < n; ++i) perm[i] = i;
  auto fill = [&](bool first) {
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) {
        double x = 0;
        bool big = i < n && perm[i] == j;
        // The QR path drops reflections of entries that are zero when the
        // expression is built (known finding), so these are never zero
        if (big) x = (c.coin() ? 1 : -1) * c.real(n * 0.8, n * 1.6);
        else if (qr) x = (c.coin() ? 1 : -1) * c.real(0.05, 0.5);
        else x = c.chance(1, 3) ? 0 : c.real(-0.7, 0.7);
        if (lsq && i >= n) x = (c.coin() ? 1 : -1) * c.real(0.1, 1);
        if (first) {
          fixed[static_cast<size_t>(i) * n + j] = c.chance(1, 4);
          if (fixed[static_cast<size_t>(i) * n + j]) A[i, j] = x;
        }
        if (fixed[static_cast<size_t>(i) * n + j]) {
          if (!first) continue;
          a(i, j) = x;
          continue;
        }
        a(i, j) = x;
        A[i, j].set_value(x);
      }
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < p; ++j) {
        double x = c.num(5);
        if (first) {
          fixed[static_cast<size_t>(m) * n + i * p + j] = c.chance(1, 4);
          if (fixed[static_cast<size_t>(m) * n + i * p + j]) B[i, j] = x;
        }
        if (fixed[static_cast<size_t>(m) * n + i * p + j]) {
          if (!first) continue;
          b(i, j) = x;
          continue;
        }
        b(i, j) = x;
        B[i, j].set_value(x);
      }
  };
  fill(true);
  c.note("{}x{} system with {} right-hand sides", m, n, p);
  VM X = slp::solve<double>(A, B);
  int rounds = c.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round > 0) fill(false);
    PCHECK(X.rows() == n && X.cols() == p, "the solution is {}x{} instead of {}x{}", X.rows(), X.cols(), n, p);
    LMat la = a.cast<LD>(), lb = b.cast<LD>();
    Eigen::JacobiSVD<Mat> sv(a);
    double cond = sv.singularValues()(0) / sv.singularValues()(n - 1);
    if (!(cond < 1e3) || sv.singularValues()(n - 1) < 0.05) continue;
    LMat want = lsq ? LMat((la.transpose() * la).fullPivLu().solve(la.transpose() * lb)) : LMat(la.fullPivLu().solve(lb));
    Mat got = X.value();
    LD mag = 1 + want.cwiseAbs().maxCoeff() + lb.cwiseAbs().maxCoeff();
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < p; ++j)
        PCHECK(std::abs(got(i, j) - want(i, j)) <= (qr ? 1e-6L : 1e-8L) * mag * cond, "round {}: solution ({}, {}) is {} instead of {}", round, i, j, got(i, j),
               static_cast<double>(want(i, j)));
    if (round > 0) c.nontrivial(n >= 2);
    c.label(std::format("{}x{}", n, m == n ? "n" : "m>n"));
  }
}

PROPERTY("matrix_exp", "at least a 2x2 matrix that is not diagonal, checked again after its entries were changed") {
  int n = c.range(1, 4);
  VM A(n, n);
  Mat a(n, n);
  bool diag = true;
  auto fill = [&](double s) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        double x = c.chance(1, 4) ? 0 : c.real(-s, s);
        a(i, j) = x;
        A[i, j].set_value(x);
        if (i != j && x != 0) diag = false;
      }
  };
  double s = c.pick({0.1, 0.5, 1.0}) / n * 1.5;
  fill(s);
  bool viablock = c.coin();
  VM E = viablock ? A.block(0, 0, n, n).exp() : A.exp();
  int rounds = c.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round > 0) fill(s);
    PCHECK(E.rows() == n && E.cols() == n, "the exponential is {}x{}", E.rows(), E.cols());
    // Taylor series in long double; the norm is at most 1.5
    LMat want = LMat::Identity(n, n), term = want, la = a.cast<LD>();
    for (int k = 1; k < 40; ++k) {
      term = term * la / static_cast<LD>(k);
      want += term;
    }
    Mat got = E.value();
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        PCHECK(std::abs(got(i, j) - want(i, j)) <= 1e-10L * (1 + std::abs(want(i, j))), "round {}: exp ({}, {}) is {} instead of {}", round, i, j, got(i, j),
               static_cast<double>(want(i, j)));
    if (round > 0) c.nontrivial(n >= 2 && !diag);
  }
}

PROPERTY("constraints", "a matrix constraint with at least two elements, or at least two constraints concatenated") {
  World w{c};
  auto& d = w.d;
  int r = c.range(1, 3), cc = c.range(1, 3);
  w.new_matrix(r, cc);
  w.new_matrix(r, cc);
  VM A = w.mats[0], B = w.mats[1];
  MM a = w.mods[0], b = w.mods[1];
  MM e;
  Mat E = w.eigen(r, cc, e);
  auto [x, nx] = w.scalar();
  auto [y, ny] = w.scalar();
  double k = w.val();
  MM X{1, 1}, Y{1, 1}, K{1, 1};
  X.e = {nx};
  Y.e = {ny};
  K.e = {d.k(k)};
  // Sides: 0 A, 1 B, 2 Eigen, 3 x, 4 y, 5 number, 6 block of A, 7 integer
  MM I{1, 1};
  I.e = {d.k(2)};
  // expected left minus right, broadcast
  auto diff = [&](const MM& l, const MM& q) {
    MM o = l.r * l.c >= q.r * q.c ? l : q;
    std::vector<int> out;
    // A 1x1 matrix against a bigger one never happens here (scalars broadcast)
    for (size_t i = 0; i < o.e.size(); ++i) out.push_back(d.op(SUB, l.e.size() == 1 ? l.e[0] : l.e[i], q.e.size() == 1 ? q.e[0] : q.e[i]));
    return out;
  };
  struct Con {
    bool eq;
    slp::EqualityConstraints<double>* pe;
  };
  std::vector<slp::EqualityConstraints<double>> eqs;
  std::vector<slp::InequalityConstraints<double>> ins;
  std::vector<std::vector<int>> weq, win;
  auto rel = [&](auto&& l, auto&& q, const MM& ml, const MM& mq, const char* what) {
    int op = c.range(0, 4);
    c.note("{} with operator {}", what, op);
    auto fwd = diff(ml, mq);
    auto rev = diff(mq, ml);
    switch (op) {
      case 0:
        eqs.push_back(l == q);
        weq.push_back(fwd);
        break;
      case 1:
        ins.push_back(l >= q);
        win.push_back(fwd);
        break;
      case 2:
        ins.push_back(l > q);
        win.push_back(fwd);
        break;
      case 3:
        ins.push_back(l <= q);
        win.push_back(rev);
        break;
      case 4:
        ins.push_back(l < q);
        win.push_back(rev);
        break;
    }
  };
  int num = c.range(1, 4);
  for (int i = 0; i < num; ++i) {
    auto ab = A.block(0, 0, r, cc);
    switch (c.range(0, 17)) {
      case 0: rel(A, B, a, b, "A ~ B"); break;
      case 1: rel(A, E, a, e, "A ~ Eigen"); break;
      case 2: rel(E, A, e, a, "Eigen ~ A"); break;
      case 3: rel(A, x, a, X, "A ~ x"); break;
      case 4: rel(x, A, X, a, "x ~ A"); break;
      case 5: rel(A, k, a, K, "A ~ number"); break;
      case 6: rel(k, A, K, a, "number ~ A"); break;
      case 7: rel(x, y, X, Y, "x ~ y"); break;
      case 8: rel(x, k, X, K, "x ~ number"); break;
      case 9: rel(k, x, K, X, "number ~ x"); break;
      case 10: rel(x, 2, X, I, "x ~ 2"); break;
      case 11: rel(2, x, I, X, "2 ~ x"); break;
      case 12: rel(ab, B, a, b, "block(A) ~ B"); break;
      case 13: rel(B, ab, b, a, "B ~ block(A)"); break;
      case 14: rel(ab, E, a, e, "block(A) ~ Eigen"); break;
      case 15: rel(ab, x, a, X, "block(A) ~ x"); break;
      case 16: {  // two-sided bounds
        c.note("bounds(number, A, x)");
        ins.push_back(slp::bounds(k, A, x));
        auto l = diff(a, K), u = diff(X, a);
        l.insert(l.end(), u.begin(), u.end());
        win.push_back(l);
        break;
      }
      default: {
        c.note("bounds(Eigen, A, B)");
        ins.push_back(slp::bounds(E, A, B));
        auto l = diff(a, e), u = diff(b, a);
        l.insert(l.end(), u.begin(), u.end());
        win.push_back(l);
        break;
      }
    }
  }
  if (eqs.size() >= 2) {
    slp::EqualityConstraints<double> all = c.coin() ? slp::EqualityConstraints<double>{eqs[0], eqs[1]} : slp::EqualityConstraints<double>{std::vector{eqs[0], eqs[1]}};
    auto l = weq[0];
    l.insert(l.end(), weq[1].begin(), weq[1].end());
    eqs.push_back(all);
    weq.push_back(l);
    c.nontrivial();
  }
  if (ins.size() >= 2) {
    slp::InequalityConstraints<double> all = c.coin() ? slp::InequalityConstraints<double>{ins[0], ins[1]} : slp::InequalityConstraints<double>{std::vector{ins[0], ins[1]}};
    auto l = win[0];
    l.insert(l.end(), win[1].begin(), win[1].end());
    ins.push_back(all);
    win.push_back(l);
    c.nontrivial();
  }
  c.nontrivial(r * cc >= 2);
  for (int round = 0; round < 3; ++round) {
    d.eval();
    for (size_t i = 0; i < eqs.size(); ++i) {
      auto& q = eqs[i];
      PCHECK(q.constraints.size() == weq[i].size(), "{} equality constraints instead of {}", q.constraints.size(), weq[i].size());
      bool want = true, sure = true;
      for (size_t j = 0; j < weq[i].size(); ++j) {
        w.check_value(q.constraints[j].value(), weq[i][j], "equality constraint", static_cast<int>(j), 0);
        LD v = d.v[weq[i][j]];
        if (v != 0) want = false;
        if (v != 0 && std::abs(v) < 1e-9L * (1 + d.m[weq[i][j]])) sure = false;
      }
      if (sure) PCHECK(static_cast<bool>(q) == want, "equality truth value {}", !want);
    }
    for (size_t i = 0; i < ins.size(); ++i) {
      auto& q = ins[i];
      PCHECK(q.constraints.size() == win[i].size(), "{} inequality constraints instead of {}", q.constraints.size(), win[i].size());
      bool want = true, sure = true;
      for (size_t j = 0; j < win[i].size(); ++j) {
        w.check_value(q.constraints[j].value(), win[i][j], "inequality constraint", static_cast<int>(j), 0);
        LD v = d.v[win[i][j]];
        if (v < 0) want = false;
        if (v != 0 && std::abs(v) < 1e-9L * (1 + d.m[win[i][j]])) sure = false;
      }
      if (sure) PCHECK(static_cast<bool>(q) == want, "inequality truth value {}", !want);
    }
    w.update_leaves();
  }
}

// Only replayed, as a known finding: with 5 or more unknowns an entry that is
// zero when the expression is built is treated as zero for good
PROPERTY("linear_solve_zero_entries", "an entry that was zero at construction was changed") {
  int n = 5;
  VM A(n, n), B(n, 1);
  Mat a = Mat::Identity(n, n) * 4;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) A[i, j].set_value(a(i, j));
  for (int i = 0; i < n; ++i) B[i].set_value(i + 1);
  VM X = slp::solve<double>(A, B);
  int i = c.range(0, n - 1), j = c.range(0, n - 1);
  a(i, j) += 1;
  A[i, j].set_value(a(i, j));
  c.note("4 I at construction, then entry ({}, {}) increased by 1", i, j);
  Eigen::VectorXd b(n);
  for (int k = 0; k < n; ++k) b[k] = k + 1;
  Eigen::VectorXd want = a.fullPivLu().solve(b);
  for (int k = 0; k < n; ++k) PCHECK(std::abs(X[k].value() - want[k]) < 1e-9, "solution {} is {} instead of {}", k, X[k].value(), want[k]);
}
