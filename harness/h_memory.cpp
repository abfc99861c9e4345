// P07: expressions live exactly as long as they are reachable
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/util/pool.hpp>

#include <optional>

#include "gen_expr.hpp"

using ref::LD;

namespace {

size_t live() { return slp::global_pool_resource().blocks_in_use(); }

/// Reuses whatever has been given back
void scribble(int n) {
  std::vector<V> junk;
  for (int i = 0; i < n; ++i) {
    V a;
    a.set_value(1e300 + i);
    junk.push_back(a);
    junk.push_back(a * a + 1e301);
  }
  for (auto& j : junk) j.value();
}

/// Something that owns expressions
struct Owner {
  std::optional<slp::Gradient<double>> g;
  std::optional<slp::Jacobian<double>> j;
  std::optional<slp::Hessian<double, Eigen::Lower>> h;
  std::optional<VM> m;
  std::vector<int> nodes;
  std::vector<int> wrt;
};

}  // namespace

PROPERTY("expression_lifetime", "at least 6 operations, a handle or owner destroyed before a later check of a survivor, and a derivative object") {
  size_t before = live();
  bool destroyed = false, checked = false, derived = false;
  int ops = 0;
  {
    ExprGen g{c};
    int nl = c.range(1, 4);
    for (int i = 0; i < nl; ++i) g.add_leaf(gen_leaf(c));
    std::vector<Owner> owners;
    auto check = [&](const Handle& h) {
      auto r = g.p.eval();
      if (!r[h.node].ok) return;
      V v = h.v;
      PCHECK(ref::close(v.value(), r[h.node].v, r[h.node].av, 1e-11L), "value {} expected {} for {}", v.value(), static_cast<double>(r[h.node].v), g.p.str(h.node));
      checked |= destroyed;
    };
    auto check_owner = [&](Owner& o) {
      auto r = g.p.eval(o.wrt);
      for (size_t k = 0; k < o.nodes.size(); ++k)
        if (!r[o.nodes[k]].ok) return;
      if (o.m) {
        for (size_t k = 0; k < o.nodes.size(); ++k) {
          auto& e = r[o.nodes[k]];
          double got = o.m->operator[](static_cast<int>(k)).value();
          PCHECK(ref::close(got, e.v, e.av, 1e-11L), "element {} expected {} for {}", got, static_cast<double>(e.v), g.p.str(o.nodes[k]));
        }
      }
      int n = o.wrt.size();
      if (o.g) {
        Eigen::VectorXd d = o.g->value().toDense();
        auto& e = r[o.nodes[0]];
        for (int i = 0; i < n; ++i) PCHECK(ref::close(d[i], e.g[i], e.ag[i]), "derivative {} expected {} for {}", d[i], static_cast<double>(e.g[i]), g.p.str(o.nodes[0]));
      }
      if (o.j) {
        Eigen::MatrixXd d = o.j->value().toDense();
        for (size_t k = 0; k < o.nodes.size(); ++k) {
          auto& e = r[o.nodes[k]];
          for (int i = 0; i < n; ++i) PCHECK(ref::close(d(k, i), e.g[i], e.ag[i]), "Jacobian entry {} expected {} for {}", d(k, i), static_cast<double>(e.g[i]), g.p.str(o.nodes[k]));
        }
      }
      if (o.h) {
        Eigen::MatrixXd d = o.h->value().toDense();
        auto& e = r[o.nodes[0]];
        for (int i = 0; i < n; ++i)
          for (int j = 0; j <= i; ++j)
            PCHECK(ref::close(d(i, j), e.h[i][j], e.ah[i][j], 1e-8L), "second derivative {} expected {} for {}", d(i, j), static_cast<double>(e.h[i][j]), g.p.str(o.nodes[0]));
      }
      checked |= destroyed;
    };
    int steps = c.range(4, 30);
    for (int s = 0; s < steps; ++s) {
      switch (c.weighted({10, 3, 3, 2, 2, 3, 3, 2})) {
        case 0:
          g.hs.push_back(g.step());
          ++ops;
          break;
        case 1: {  // drop a handle (leaves may survive only through expressions)
          if (g.size() <= 1) break;
          g.hs.erase(g.hs.begin() + c.draw(g.size()));
          destroyed = true;
          break;
        }
        case 2: {  // assignments, also to itself
          int i = static_cast<int>(c.draw(g.size())), j = static_cast<int>(c.draw(g.size()));
          int form = c.range(0, 3);
          if (form == 0) g.hs[i].v = g.hs[j].v;
          if (form == 1 && i != j) {
            V t{std::move(g.hs[i].v)};
            g.hs[i].v = g.hs[j].v;
            t = g.hs[j].v;
            g.hs[i].v = std::move(t);
          }
          if (form == 2) {
            auto& self = g.hs[i].v;
            g.hs[i].v = self;
            j = i;
          }
          if (form == 3) {
            std::swap(g.hs[i].v, g.hs[j].v);
            std::swap(g.hs[i].node, g.hs[j].node);
            break;
          }
          g.hs[i].node = g.hs[j].node;
          destroyed = true;
          break;
        }
        case 3: {  // a matrix of handles, through copies and blocks
          Owner o;
          int n = c.range(1, 4);
          VM m(n);
          for (int k = 0; k < n; ++k) {
            auto& h = g.hs[c.draw(g.size())];
            m[k] = h.v;
            o.nodes.push_back(h.node);
          }
          if (c.coin()) {
            VM b = m.block(0, 0, n, 1);
            o.m = VM{b.T()};
            m = VM{1};
          } else {
            o.m = std::move(m);
          }
          owners.push_back(std::move(o));
          break;
        }
        case 4: {  // a derivative
          derived = true;
          Owner o;
          auto& h = g.hs[c.draw(g.size())];
          o.nodes = {h.node};
          VM w(nl);
          for (int i = 0; i < nl; ++i) {
            w[i] = g.leaves[i];
            o.wrt.push_back(i);
          }
          int form = c.range(0, 4);
          if (form == 0) o.g.emplace(h.v, w);
          if (form == 1 || form == 4) {
            VM f(2);
            auto& h2 = g.hs[c.draw(g.size())];
            f[0] = h.v;
            f[1] = h2.v;
            o.nodes = {h.node, h2.node};
            o.j.emplace(f, w);
            if (form == 4) o.m = f;
          }
          if (form == 2) o.h.emplace(h.v, w);
          if (form == 3) {
            // Derivative expressions outlive the object that made them
            auto sym = slp::Gradient<double>(h.v, w).get();
            scribble(5);
            auto r = g.p.eval(o.wrt);
            if (r[h.node].ok)
              for (int i = 0; i < nl; ++i)
                PCHECK(ref::close(sym[i].value(), r[h.node].g[i], r[h.node].ag[i]), "derivative expression {} expected {} for {}", sym[i].value(), static_cast<double>(r[h.node].g[i]), g.p.str(h.node));
            checked |= destroyed;
            break;
          }
          owners.push_back(std::move(o));
          break;
        }
        case 5:
          for (int i = 0; i < nl; ++i)
            if (c.coin()) g.set_leaf(i, gen_leaf(c));
          break;
        case 6: {
          scribble(c.range(0, 20));
          if (owners.size() && c.coin()) check_owner(owners[c.draw(owners.size())]);
          else check(g.hs[c.draw(g.size())]);
          break;
        }
        default: {
          if (owners.empty()) break;
          int k = static_cast<int>(c.draw(owners.size()));
          if (c.coin() && owners[k].j) {
            slp::Jacobian<double> moved{std::move(*owners[k].j)};
            owners[k].j.emplace(std::move(moved));
            check_owner(owners[k]);
          } else {
            owners.erase(owners.begin() + k);
            destroyed = true;
          }
        }
      }
    }
    scribble(10);
    for (auto& h : g.hs) check(h);
    for (auto& o : owners) check_owner(o);
    for (auto& h : g.hs) c.note("{}", g.p.str(h.node));
    // Whatever order they go in
    bool first = c.coin();
    if (first) g.leaves.clear();
    while (g.hs.size()) g.hs.erase(g.hs.begin() + c.draw(g.size()));
  }
  PCHECK(live() == before, "{} blocks are still in use", static_cast<long long>(live()) - static_cast<long long>(before));
  c.nontrivial(ops >= 6 && checked && derived);
}

PROPERTY("deep_expressions", "at least 10000 nodes, or 30 levels of sharing") {
  size_t before = live();
  {
    V x, y;
    double xv = c.grid(0.5, 1), yv = c.grid(-1, 1);
    x.set_value(xv);
    y.set_value(yv);
    int form = c.range(0, 5);
    int size = c.weighted({6, 1}) ? c.range(50'000, 200'000) : c.range(1, 20'000);
    c.note("form {} size {}", form, size);
    V f = x;
    LD v = xv, dx = 1, dy = 0;
    if (form == 0) {  // a running sum
      for (int i = 0; i < size; ++i) f = f + y;
      v = xv + static_cast<LD>(size) * yv;
      dy = size;
    } else if (form == 1) {  // compound assignment
      for (int i = 0; i < size; ++i) f += y;
      v = xv + static_cast<LD>(size) * yv;
      dy = size;
    } else if (form == 2) {  // negations and signs
      for (int i = 0; i < size; ++i) f = y - f;
      if (size % 2) {
        v = yv - static_cast<LD>(xv);
        dx = -1;
        dy = 1;
      }
    } else if (form == 3) {  // contraction, alternating the side
      for (int i = 0; i < size; ++i) {
        f = i % 2 ? 0.5 * f + y : y + f * 0.5;
        v = 0.5L * v + yv;
        dx *= 0.5L;
        dy = 0.5L * dy + 1;
      }
    } else if (form == 4) {  // sharing: exponentially many paths
      size = 20 + size % 41;
      for (int i = 0; i < size; ++i) {
        f = f + f;
        v *= 2;
        dx *= 2;
      }
    } else {  // sharing of two expressions
      size = 20 + size % 21;
      V g = y;
      LD gv = yv, gx = 0, gy = 1;
      for (int i = 0; i < size; ++i) {
        V s = f * 0.75 + g * 0.5, d = f * 0.25 - g;
        LD sv = v * 0.75L + gv * 0.5L, dv = v * 0.25L - gv, sx = dx * 0.75L + gx * 0.5L, ddx = dx * 0.25L - gx, sy = dy * 0.75L + gy * 0.5L, ddy = dy * 0.25L - gy;
        f = s;
        g = d;
        v = sv, gv = dv, dx = sx, gx = ddx, dy = sy, gy = ddy;
      }
    }
    LD tol = 1e-9L * (1 + std::abs(v)) + (form < 3 ? 1e-16L * size * size : 0);
    for (int round = 0; round < 2; ++round) {
      PCHECK(std::abs(f.value() - v) <= tol, "value {} expected {}", f.value(), static_cast<double>(v));
      VM w(2);
      w[0] = x;
      w[1] = y;
      slp::Gradient<double> g{f, w};
      Eigen::VectorXd d = g.value().toDense();
      PCHECK(std::abs(d[0] - dx) <= 1e-9L * (1 + std::abs(dx)) && std::abs(d[1] - dy) <= 1e-9L * (1 + std::abs(dy)), "derivatives {} {} expected {} {}", d[0], d[1], static_cast<double>(dx), static_cast<double>(dy));
      if (round) break;
      int k = c.range(0, 4);
      V square = f * f;
      if (k == 1) {
        auto sym = slp::Gradient<double>(square, w).get();
        LD want = 2 * v * dx;
        PCHECK(std::abs(sym[0].value() - want) <= 1e-8L * (1 + std::abs(want)), "derivative expression {} expected {}", sym[0].value(), static_cast<double>(want));
      } else if (k == 2) {
        Eigen::MatrixXd h = slp::Hessian<double, Eigen::Lower>(square, w).value().toDense();
        LD want[] = {2 * dx * dx, 2 * dx * dy, 2 * dy * dy};
        PCHECK(std::abs(h(0, 0) - want[0]) <= 1e-8L * (1 + std::abs(want[0])) && std::abs(h(1, 0) - want[1]) <= 1e-8L * (1 + std::abs(want[1])) &&
                   std::abs(h(1, 1) - want[2]) <= 1e-8L * (1 + std::abs(want[2])),
               "second derivatives {} {} {} expected {} {} {}", h(0, 0), h(1, 0), h(1, 1), static_cast<double>(want[0]), static_cast<double>(want[1]), static_cast<double>(want[2]));
      } else if (k == 3) {  // shared tails: one of two owners goes first
        V other = f + 1.0;
        f = other;
        other = V{0.0};
        v += 1;
      } else if (k == 4) {
        x.set_value(xv);
      }
    }
    c.nontrivial(size >= 10'000 || form >= 4);
  }
  PCHECK(live() == before, "{} blocks are still in use", static_cast<long long>(live()) - static_cast<long long>(before));
}

PROPERTY("problem_lifetime", "at least two problems with constraints, one of them solved, and a handle that outlives its problem") {
  size_t before = live();
  int constrained = 0, solved = 0, outlives = 0;
  {
    std::vector<std::pair<V, double>> kept;
    int k = c.range(1, 4);
    std::vector<std::unique_ptr<slp::Problem<double>>> ps;
    for (int t = 0; t < k; ++t) {
      auto p = std::make_unique<slp::Problem<double>>();
      int n = c.range(1, 4);
      VM x = p->decision_variable(n);
      V cost{0.0};
      std::vector<double> target;
      for (int i = 0; i < n; ++i) {
        target.push_back(c.range(-8, 8) / 4.0);
        V d = x[i] - target[i];
        cost += d * d;
      }
      if (c.chance(3, 4)) p->minimize(cost);
      else target.clear();
      for (int q = c.range(0, 3); q > 0; --q, ++constrained) {
        int i = c.range(0, n - 1);
        double bound = (target.size() ? target[i] : 0) + 1;
        switch (c.range(0, 3)) {
          case 0: p->subject_to(x[i] <= bound); break;
          case 1: p->subject_to(slp::exp(x[i] - bound) <= 1); break;
          case 2: p->subject_to(x >= (target.size() ? -3.0 : -1.0)); break;
          default: p->subject_to(slp::tanh(x[i]) == std::tanh(bound - 1)); break;
        }
      }
      int adds = c.range(0, 2);
      std::optional<V> outer;
      if (c.coin()) outer = x[0] * 2.0 + 1.0;
      if (adds) p->add_callback([keep = V{x[0]}](const auto&) { return false; });
      if (c.chance(2, 3)) {
        auto s = p->solve();
        c.label(std::format("{}", s));
        ++solved;
        if (c.chance(1, 3)) p->solve();
      }
      if (outer) kept.push_back({*outer, 2 * x[0].value() + 1});
      if (c.chance(1, 4)) {
        slp::Problem<double> moved{std::move(*p)};
        *p = std::move(moved);
      }
      ps.push_back(std::move(p));
    }
    while (ps.size()) {
      ps.erase(ps.begin() + c.draw(ps.size()));
      scribble(10);
      for (auto& [v, want] : kept) {
        PCHECK(v.value() == want, "an expression of a destroyed problem is {} instead of {}", v.value(), want);
        ++outlives;
      }
    }
  }
  PCHECK(live() == before, "{} blocks are still in use", static_cast<long long>(live()) - static_cast<long long>(before));
  c.nontrivial(constrained >= 2 && solved && outlives);
}

PROPERTY("scalar_types", "expressions of two scalar types alive at once, and blocks reused across types") {
  size_t before = live();
  int kinds = 0;
  {
    using F = slp::Variable<float>;
    struct Df { F v; float want; };
    struct Dd { V v; double want; };
    std::vector<Df> fs;
    std::vector<Dd> ds;
    bool reused = false, erased_f = false, erased_d = false;
    int steps = c.range(4, 40);
    for (int i = 0; i < steps; ++i) {
      switch (c.range(0, 5)) {
        case 0: {
          F v;
          float k = c.range(-8, 8);
          v.set_value(k);
          fs.push_back({v, k});
          reused |= erased_d;
          break;
        }
        case 1: {
          V v;
          double k = c.range(-8, 8) / 3.0;
          v.set_value(k);
          ds.push_back({v, k});
          reused |= erased_f;
          break;
        }
        case 2:
          if (fs.size()) {
            auto a = fs[c.draw(fs.size())], b = fs[c.draw(fs.size())];
            if (std::abs(a.want * b.want) < 1e6) fs.push_back({a.v * b.v + a.v, a.want * b.want + a.want});
          }
          break;
        case 3:
          if (ds.size()) {
            auto a = ds[c.draw(ds.size())], b = ds[c.draw(ds.size())];
            if (std::abs(a.want * b.want) < 1e6) ds.push_back({a.v * b.v - b.v, a.want * b.want - b.want});
          }
          break;
        case 4:
          if (fs.size() && c.coin()) {
            fs.erase(fs.begin() + c.draw(fs.size()));
            erased_f = true;
          } else if (ds.size()) {
            ds.erase(ds.begin() + c.draw(ds.size()));
            erased_d = true;
          }
          break;
        default:
          for (auto& f : fs) PCHECK(f.v.value() == f.want, "float value {} instead of {}", f.v.value(), f.want);
          for (auto& d : ds) PCHECK(std::abs(d.v.value() - d.want) <= 1e-12 * (1 + std::abs(d.want)), "double value {} instead of {}", d.v.value(), d.want);
      }
    }
    for (auto& f : fs) PCHECK(f.v.value() == f.want, "float value {} instead of {}", f.v.value(), f.want);
    for (auto& d : ds) PCHECK(std::abs(d.v.value() - d.want) <= 1e-12 * (1 + std::abs(d.want)), "double value {} instead of {}", d.v.value(), d.want);
    kinds = (fs.size() > 0) + (ds.size() > 0);
    c.nontrivial(kinds == 2 && reused);
  }
  PCHECK(live() == before, "{} blocks are still in use", static_cast<long long>(live()) - static_cast<long long>(before));
}

PROPERTY("pool", "at least two block sizes, blocks given back and taken again, and more than one chunk") {
  int per = c.range(1, 9);
  slp::PoolResource pool{static_cast<size_t>(per)};
  struct Block {
    unsigned char* p;
    size_t n;
    unsigned char fill;
  };
  std::vector<Block> used;
  std::set<void*> seen[5];
  static const size_t sizes[] = {8, 16, 48, 56, 128};
  std::map<int, int> peak, now;
  bool again = false;
  int chunks = 0;
  unsigned char fill = 1;
  int steps = c.range(2, 60);
  int kinds = c.range(1, 5);
  auto intact = [&](const Block& b) {
    for (size_t i = 0; i < b.n; ++i)
      if (b.p[i] != b.fill) return false;
    return true;
  };
  for (int s = 0; s < steps; ++s) {
    if (c.weighted({3, 2}) == 0) {
      int k = c.range(0, kinds - 1);
      auto* p = static_cast<unsigned char*>(pool.allocate(sizes[k]));
      PCHECK(p, "no block");
      PCHECK(reinterpret_cast<uintptr_t>(p) % 8 == 0, "block is not aligned");
      for (auto& b : used) PCHECK(p + sizes[k] <= b.p || b.p + b.n <= p, "blocks of {} and {} bytes overlap", sizes[k], b.n);
      again |= !seen[k].insert(p).second;
      ++now[k];
      // Memory given back is used before more is taken
      peak[k] = std::max(peak[k], now[k]);
      size_t most = (peak[k] + per - 1) / per * per;
      PCHECK(seen[k].size() <= most, "{} different blocks of {} bytes although never more than {} were in use", seen[k].size(), sizes[k], peak[k]);
      memset(p, fill, sizes[k]);
      used.push_back({p, sizes[k], fill++});
    } else if (used.size()) {
      int i = static_cast<int>(c.draw(used.size()));
      PCHECK(intact(used[i]), "contents of a block changed");
      pool.deallocate(used[i].p, used[i].n);
      for (int k = 0; k < 5; ++k)
        if (sizes[k] == used[i].n) --now[k];
      used.erase(used.begin() + i);
    }
    PCHECK(pool.blocks_in_use() == used.size(), "{} blocks in use instead of {}", pool.blocks_in_use(), used.size());
    for (auto& b : used) PCHECK(intact(b), "contents of a block changed");
    PCHECK(pool.is_equal(pool), "not equal to itself");
  }
  int two = 0;
  for (auto& [k, v] : peak) {
    two += v > 0;
    chunks = std::max(chunks, (v + per - 1) / per);
  }
  c.nontrivial(two >= 2 && again && chunks > 1);
}
