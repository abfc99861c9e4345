// Utilities: Slice, IntrusiveSharedPtr, function_ref, scope_exit, profilers, Spy,
// printing and formatters.
#include <stdint.h>

#include <array>
#include <chrono>
#include <fstream>
#include <limits>
#include <memory>
#include <optional>
#include <set>

#include "pbt.hpp"

#include <sleipnir/autodiff/expression_type.hpp>
#include <sleipnir/autodiff/slice.hpp>
#include <sleipnir/optimization/solver/exit_status.hpp>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/util/function_ref.hpp>
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <sleipnir/util/print.hpp>
#include <sleipnir/util/profiler.hpp>
#include <sleipnir/util/scope_exit.hpp>
#include <sleipnir/util/spy.hpp>

// --- Slice ---------------------------------------------------------------------

namespace {

using OptInt = std::optional<int64_t>;

/// The indices a Python slice selects, from the language reference: "the slice of s
/// from i to j with step k is the sequence of items with index x = i + n*k such that
/// 0 <= n < (j-i)/k"; negative i, j are relative to the end; i, j are clamped to
/// [0, len] for positive and [-1, len - 1] for negative k.
std::vector<int64_t> python_slice(OptInt start, OptInt stop, OptInt step, int64_t len) {
  int64_t k = step.value_or(1);
  int64_t lower = k > 0 ? 0 : -1, upper = k > 0 ? len : len - 1;
  auto norm = [&](OptInt v, int64_t dflt) {
    if (!v) return dflt;
    int64_t x = *v;
    if (x < 0) x += len;
    return std::clamp(x, lower, upper);
  };
  int64_t i = norm(start, k > 0 ? lower : upper), j = norm(stop, k > 0 ? upper : lower);
  std::vector<int64_t> r;
  if (k > 0)
    for (int64_t x = i; x < j; x += k) r.push_back(x);
  else
    for (int64_t x = i; x > j; x += k) r.push_back(x);
  return r;
}

std::vector<int64_t> selected(slp::Slice s, int len) {
  int n = s.adjust(len);
  std::vector<int64_t> r;
  PCHECK(n >= 0 && n <= len, "slice of a sequence of length {} has length {}", len, n);
  for (int64_t k = 0; k < n; ++k) r.push_back(s.start + k * s.step);
  return r;
}

std::string show(const std::vector<int64_t>& v) {
  std::string s = "[";
  for (auto x : v) s += std::format("{} ", x);
  return s + "]";
}

int gen_index(pbt::Case& c, int len) {
  switch (c.weighted({6, 3, 1})) {
    case 0: return c.range(-len - 3, len + 3);
    case 1: return c.pick({0, -1, 1, len, -len, len - 1, -len - 1, len + 1});
    default: return c.pick({std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), std::numeric_limits<int>::max() - 1, -std::numeric_limits<int>::max(), 1000000, -1000000});
  }
}

}  // namespace

PROPERTY("slice", "the slice selects at least two elements and has a negative argument or a step other than 1") {
  using slp::slicing::_;
  c.scale_up(1000);
  int len = c.weighted({1, 2}) ? c.range(0, 12) : c.size(0, 60, 200'000);
  OptInt start, stop, step;
  if (c.chance(3, 4)) start = gen_index(c, len);
  if (c.chance(3, 4)) stop = gen_index(c, len);
  if (c.chance(3, 4)) {
    int k = c.weighted({5, 1}) == 0 ? c.range(-5, 5) : gen_index(c, len);
    if (k == 0) k = 1;
    step = k;
  }
  auto txt = [](OptInt v) { return v ? std::format("{}", *v) : std::string{}; };
  c.note("[{}:{}:{}] of length {}", txt(start), txt(stop), txt(step), len);
  auto want = python_slice(start, stop, step, len);
  c.nontrivial(want.size() >= 2 && ((start && *start < 0) || (stop && *stop < 0) || (step && *step != 1)));
  c.label(step && *step < 0 ? "negative step" : "positive step");
  int a = static_cast<int>(start.value_or(0)), b = static_cast<int>(stop.value_or(0)), k = static_cast<int>(step.value_or(1));
  slp::Slice s;
  if (start && stop && step) s = slp::Slice{a, b, k};
  else if (start && stop) s = c.coin() ? slp::Slice{a, b} : slp::Slice{a, b, _};
  else if (start && step) s = slp::Slice{a, _, k};
  else if (stop && step) s = slp::Slice{_, b, k};
  else if (start) s = c.coin() ? slp::Slice{a, _} : slp::Slice{a, _, _};
  else if (stop) s = c.coin() ? slp::Slice{_, b} : slp::Slice{_, b, _};
  else if (step) s = slp::Slice{_, _, k};
  else s = c.coin() ? slp::Slice{_} : slp::Slice{_, _};
  auto got = selected(s, len);
  PCHECK(got == want, "selects {} expected {}", show(got), show(want));

  // A single index selects that element
  if (len > 0) {
    int i = c.range(-len, len - 1);
    auto one = selected(slp::Slice{i}, len);
    PCHECK(one.size() == 1 && one[0] == (i < 0 ? i + len : i), "Slice({}) of length {} selects {}", i, len, show(one));
  }
  PCHECK(selected(slp::Slice{}, len).empty(), "a default slice selects something");
}

// --- IntrusiveSharedPtr --------------------------------------------------------------

namespace {

struct Node;
std::set<const Node*> g_alive;
int g_double_free = 0;

struct Node {
  uint32_t refs = 0;
  int id;
  std::array<slp::IntrusiveSharedPtr<Node>, 2> next;
  explicit Node(int i) : id{i} { g_alive.insert(this); }
  Node(const Node&) = delete;
  virtual ~Node() {
    if (!g_alive.erase(this)) ++g_double_free;
  }
  friend void inc_ref_count(const Node* n) { ++const_cast<Node*>(n)->refs; }
  friend void dec_ref_count(const Node* n) {
    if (--const_cast<Node*>(n)->refs == 0) delete n;
  }
};
struct Derived : Node {
  using Node::Node;
  std::unique_ptr<int> payload;
  Derived(int i, std::unique_ptr<int>&& p) : Node{i}, payload{std::move(p)} {}
};

struct MNode {
  int id;
  bool derived;
  std::array<std::shared_ptr<MNode>, 2> next;
};

using P = slp::IntrusiveSharedPtr<Node>;
using PD = slp::IntrusiveSharedPtr<Derived>;
using M = std::shared_ptr<MNode>;

bool reaches(const M& from, const MNode* to) {
  if (!from) return false;
  if (from.get() == to) return true;
  return reaches(from->next[0], to) || reaches(from->next[1], to);
}

}  // namespace

PROPERTY("intrusive_ptr", "at least 6 operations, one of them releases the last pointer to an object") {
  g_alive.clear();
  g_double_free = 0;
  constexpr int K = 4;
  int next_id = 0;
  int ops = 0, released = 0;
  {
    std::array<P, K> real;
    std::array<M, K> model;
    std::array<PD, 2> dreal;
    std::array<M, 2> dmodel;
    std::vector<std::weak_ptr<MNode>> all;

    struct Loc {
      P* r;
      M* m;
      MNode* owner;  // node the pointer is a member of
      std::weak_ptr<MNode> wowner;
      std::string name;
    };
    auto loc = [&] {
      int s = static_cast<int>(c.draw(K));
      Loc l{&real[s], &model[s], nullptr, {}, std::format("p{}", s)};
      while (*l.m && c.chance(2, 5)) {
        int k = static_cast<int>(c.draw(2));
        l.owner = l.m->get();
        l.wowner = *l.m;
        Node* n = l.r->get();
        M* nm = &(*l.m)->next[k];
        l.r = &n->next[k];
        l.m = nm;
        l.name += std::format(".n{}", k);
      }
      return l;
    };
    auto live = [&] {
      int n = 0;
      for (auto& w : all) n += !w.expired();
      return n;
    };
    auto verify = [&](const char* what) {
      PCHECK(g_double_free == 0, "object destroyed twice after {}", what);
      PCHECK(static_cast<int>(g_alive.size()) == live(), "{} objects alive, expected {} after {}", g_alive.size(), live(), what);
      auto walk = [&](auto&& self, const P& r, const M& m, int depth) -> void {
        PCHECK((r.get() == nullptr) == (m == nullptr), "null mismatch after {}", what);
        PCHECK(static_cast<bool>(r) == (r.get() != nullptr) && (r == nullptr) == !r && (nullptr == r) == !r && (r != nullptr) == static_cast<bool>(r) && (nullptr != r) == static_cast<bool>(r), "null comparison");
        if (!m) return;
        PCHECK(g_alive.count(r.get()) == 1, "dangling pointer after {}", what);
        PCHECK(r->id == m->id && (*r).id == m->id && &*r == r.get(), "points to object {} expected {} after {}", r->id, m->id, what);
        PCHECK(static_cast<long>(r->refs) == m.use_count(), "object {} has count {} expected {} after {}", m->id, r->refs, m.use_count(), what);
        if (depth > 3) return;
        for (int k = 0; k < 2; ++k) self(self, r->next[k], m->next[k], depth + 1);
      };
      for (int i = 0; i < K; ++i) walk(walk, real[i], model[i], 0);
      for (int i = 0; i < 2; ++i) {
        PCHECK((dreal[i].get() == nullptr) == (dmodel[i] == nullptr), "null mismatch (derived) after {}", what);
        if (dmodel[i]) PCHECK(dreal[i]->id == dmodel[i]->id && dreal[i]->refs == static_cast<uint32_t>(dmodel[i].use_count()), "derived object after {}", what);
      }
      for (int i = 0; i < K; ++i)
        for (int j = 0; j < K; ++j) {
          PCHECK((real[i] == real[j]) == (model[i] == model[j]), "== after {}", what);
          PCHECK((real[i] != real[j]) == (model[i] != model[j]), "!= after {}", what);
        }
    };

    int n = c.range(1, 24);
    for (int step = 0; step < n; ++step) {
      int before = live();
      int created = 0;
      std::string what;
      switch (c.weighted({4, 5, 5, 2, 2, 2, 2, 1})) {
        case 0: {  // new object
          Loc d = loc();
          what = d.name + " = new";
          int id = next_id++;
          M m = std::make_shared<MNode>(MNode{id, false, {}});
          all.push_back(m);
          created = 1;
          if (c.coin()) {
            *d.r = slp::make_intrusive_shared<Node>(id);
          } else {
            P t{new Node{id}};
            *d.r = t;
          }
          *d.m = std::move(m);
          break;
        }
        case 1: {  // copy assignment
          Loc d = loc(), s = loc();
          if (d.owner && reaches(*s.m, d.owner)) continue;
          what = d.name + " = " + s.name;
          *d.r = *s.r;
          M t = *s.m;
          *d.m = std::move(t);
          break;
        }
        case 2: {  // move assignment
          Loc d = loc(), s = loc();
          if (d.owner && reaches(*s.m, d.owner)) continue;
          if (s.owner && *d.m && !(*s.m) && reaches(*d.m, s.owner)) continue;
          what = d.name + " = move(" + s.name + ")";
          bool same = *d.m == *s.m;
          *d.r = std::move(*s.r);
          if (!same) {
            M t = std::move(*s.m);
            s.m->reset();
            *d.m = std::move(t);
          }
          // What a moved-from pointer holds is not specified
          if (d.r != s.r && (!s.owner || !s.wowner.expired())) {
            *s.r = nullptr;
            s.m->reset();
          }
          break;
        }
        case 3: {  // null
          Loc d = loc();
          what = d.name + " = nullptr";
          *d.r = nullptr;
          d.m->reset();
          break;
        }
        case 4: {  // copy and move construction through temporaries
          Loc s = loc();
          what = "construct from " + s.name;
          P a{*s.r};
          M ma{*s.m};
          PCHECK(a.get() == s.r->get() && a == *s.r, "copy construction");
          P b{std::move(a)};
          M mb{std::move(ma)};
          PCHECK(a.get() == nullptr, "a moved-from (constructed from) pointer still holds an object");
          slp::IntrusiveSharedPtr<const Node> cn{b};
          PCHECK(cn.get() == b.get(), "conversion to const");
          if (b) PCHECK(static_cast<long>(b->refs) == mb.use_count() + 1, "count {} with 2 temporaries, expected {}", b->refs, mb.use_count() + 1);
          slp::IntrusiveSharedPtr<const Node> cn2;
          cn2 = b;
          PCHECK(cn2.get() == b.get(), "converting assignment to const");
          break;
        }
        case 5: {  // new derived object
          int i = static_cast<int>(c.draw(2));
          int id = next_id++;
          what = std::format("d{} = new", i);
          dreal[i] = slp::make_intrusive_shared<Derived>(id, std::make_unique<int>(id));
          PCHECK(dreal[i]->payload && *dreal[i]->payload == id, "constructor argument not forwarded");
          dmodel[i] = std::make_shared<MNode>(MNode{id, true, {}});
          all.push_back(dmodel[i]);
          created = 1;
          break;
        }
        case 6: {  // derived to base
          int i = static_cast<int>(c.draw(2));
          Loc d = loc();
          if (d.owner && reaches(dmodel[i], d.owner)) continue;
          what = std::format("{} = d{}", d.name, i);
          if (c.coin()) {
            *d.r = dreal[i];
          } else {
            PD t{dreal[i]};
            *d.r = std::move(t);
          }
          *d.m = M{dmodel[i]};
          if (c.chance(1, 4)) {
            P t{std::move(dreal[i])};
            PCHECK(dreal[i].get() == nullptr, "moved-from derived pointer");
            dmodel[i].reset();
          }
          break;
        }
        default: {  // drop derived
          int i = static_cast<int>(c.draw(2));
          what = std::format("d{} = nullptr", i);
          dreal[i] = nullptr;
          dmodel[i].reset();
        }
      }
      ++ops;
      c.note("{}", what);
      verify(what.c_str());
      if (live() - created < before) ++released;
    }
  }
  PCHECK(g_alive.empty(), "{} objects leaked", g_alive.size());
  PCHECK(g_double_free == 0, "object destroyed twice");
  c.nontrivial(ops >= 6 && released >= 1);
}

// --- function_ref -----------------------------------------------------------------------

namespace {

struct Counter {
  int id;
  mutable int calls = 0;
  int operator()(int x) const {
    ++calls;
    return x * 10 + id;
  }
};
struct MutCounter {
  int id;
  int calls = 0;
  int operator()(int x) {
    ++calls;
    return x * 10 + id;
  }
};
struct Obj {
  int id;
};
int free_a(int x) { return x * 10 + 8; }
int free_b(int x) { return x * 10 + 9; }

}  // namespace

PROPERTY("function_ref", "at least two rebindings, one of them from another function_ref, followed by a call") {
  using FR = slp::function_ref<int(int)>;
  std::array<MutCounter, 3> mut{{{0}, {1}, {2}}};
  const std::array<Counter, 3> con{{{3}, {4}, {5}}};
  int lam_calls = 0;
  auto lam = [&lam_calls](int x) {
    ++lam_calls;
    return static_cast<short>(x * 10 + 6);  // converted to int
  };
  int (*fp)(int) = free_b;
  std::array<int, 10> calls{};
  auto bind_new = [&](int id) -> FR {
    switch (id) {
      case 0: case 1: case 2: return FR{mut[id]};
      case 3: case 4: case 5: return FR{con[id - 3]};
      case 6: return FR{lam};
      case 8: return FR{free_a};
      default: return FR{fp};
    }
  };
  auto pick = [&] { return c.pick({0, 1, 2, 3, 4, 5, 6, 8, 9}); };
  std::vector<FR> refs;
  std::vector<int> target;
  for (int i = 0; i < 3; ++i) {
    int id = pick();
    refs.push_back(bind_new(id));
    target.push_back(id);
  }
  auto call = [&](int i) {
    int x = c.range(-100, 100);
    int r = refs[i](x);
    ++calls[target[i]];
    PCHECK(r == x * 10 + target[i], "r{} returned {} expected callable {}", i, r, target[i]);
    for (int k = 0; k < 3; ++k) {
      PCHECK(mut[k].calls == calls[k], "callable {} called {} times expected {}", k, mut[k].calls, calls[k]);
      PCHECK(con[k].calls == calls[k + 3], "callable {} called {} times expected {}", k + 3, con[k].calls, calls[k + 3]);
    }
    PCHECK(lam_calls == calls[6], "lambda calls");
  };
  int rebinds = 0, from_ref = 0;
  int n = c.range(1, 16);
  for (int s = 0; s < n; ++s) {
    int i = static_cast<int>(c.draw(3)), j = static_cast<int>(c.draw(3));
    switch (c.weighted({3, 3, 2, 1, 1, 4})) {
      case 0: {  // assign a callable
        int id = pick();
        c.note("r{} = callable {}", i, id);
        switch (id) {
          case 0: case 1: case 2: refs[i] = mut[id]; break;
          case 3: case 4: case 5: refs[i] = con[id - 3]; break;
          case 6: refs[i] = lam; break;
          case 8: refs[i] = free_a; break;
          default: refs[i] = fp;
        }
        target[i] = id;
        ++rebinds;
        break;
      }
      case 1: {  // assign another reference
        c.note("r{} = r{}", i, j);
        switch (c.draw(3)) {
          case 0: refs[i] = refs[j]; break;
          case 1: refs[i] = std::as_const(refs[j]); break;
          default: {
            FR t{refs[j]};
            refs[i] = std::move(t);
          }
        }
        target[i] = target[j];
        ++rebinds;
        ++from_ref;
        break;
      }
      case 2: {
        c.note("swap(r{}, r{})", i, j);
        if (c.coin()) refs[i].swap(refs[j]);
        else swap(refs[i], refs[j]);
        std::swap(target[i], target[j]);
        break;
      }
      case 3: {  // copy construction
        FR t{refs[i]};
        FR t2{std::as_const(refs[j])};
        PCHECK(t(3) == 30 + target[i], "copy refers to something else");
        ++calls[target[i]];
        PCHECK(t2(4) == 40 + target[j], "copy refers to something else");
        ++calls[target[j]];
        break;
      }
      case 4: {  // other signatures: references, moves, void
        int y = 0;
        auto add = [](int& v, std::unique_ptr<int> p) -> int {
          v += *p;
          return v;
        };
        slp::function_ref<void(int&, std::unique_ptr<int>)> vr{add};
        vr(y, std::make_unique<int>(5));
        PCHECK(y == 5, "reference argument not forwarded");
        slp::function_ref<int&(int&)> rr{[](int& v) -> int& { return v; }};
        auto id = [](int& v) -> int& { return v; };
        rr = id;
        PCHECK(&rr(y) == &y, "reference result not forwarded");
        vr = add;
        vr(y, std::make_unique<int>(2));
        PCHECK(y == 7, "assigned callable not called");
        Obj o{42};
        slp::function_ref<int(const Obj&)> mr{&Obj::id};
        auto mp = &Obj::id;
        slp::function_ref<int(const Obj&)> mr2{mp};
        PCHECK(mr2(o) == 42, "pointer to member");
        break;
      }
      default:
        c.note("r{}()", i);
        call(i);
    }
  }
  for (int i = 0; i < 3; ++i) call(i);
  c.nontrivial(rebinds >= 2 && from_ref >= 1);
}

// --- scope_exit and profilers -----------------------------------------------------------------

PROPERTY("scope_exit", "a guard is moved or released, and scopes are nested") {
  int runs[4] = {};
  bool released[4] = {};
  int moves = 0, releases = 0;
  int depth = c.range(1, 4);
  int throw_at = c.chance(1, 3) ? static_cast<int>(c.draw(depth)) : -1;
  std::vector<int> order;
  auto nest = [&](auto&& self, int d) -> void {
    if (d == depth) return;
    bool rel = c.chance(1, 3);
    bool rel_before = c.coin();
    int mv = c.range(0, 2);
    bool rel_src = mv && c.chance(1, 3);
    released[d] = rel;
    auto payload = std::make_shared<int>(d);
    moves += mv > 0;
    releases += rel;
    c.note("scope {}: moved {} times, release {} {}", d, mv, rel, rel_before ? "before" : "after");
    auto inner = [&] {
      PCHECK(runs[d] == 0, "scope {} ran early", d);
      self(self, d + 1);
      PCHECK(runs[d] == 0, "scope {} ran early", d);
      if (throw_at == d) throw d;
    };
    {
      slp::scope_exit g{[&runs, &order, d, payload] {
        ++runs[d];
        order.push_back(*payload);
      }};
      if (rel && (rel_before || mv == 0)) g.release();
      if (mv == 0) {
        inner();
      } else {
        slp::scope_exit h{std::move(g)};
        if (rel_src) g.release();  // releasing a moved-from guard changes nothing
        if (rel && !rel_before) h.release();
        if (mv == 1) {
          inner();
        } else {
          slp::scope_exit k{std::move(h)};
          inner();
        }
      }
    }
    PCHECK(runs[d] == (rel ? 0 : 1), "scope {} ran {} times at its end", d, runs[d]);
  };
  bool threw = false;
  try {
    nest(nest, 0);
  } catch (int) {
    threw = true;
  }
  PCHECK(threw == (throw_at >= 0), "exception lost");
  std::vector<int> want;
  for (int d = depth - 1; d >= 0; --d)
    if (!released[d]) want.push_back(d);
  PCHECK(order == want, "{} guards ran, expected {}, or in another order", order.size(), want.size());
  c.nontrivial(depth >= 2 && (moves || releases));
}

PROPERTY("profiler", "at least 3 measurements, one through a scoped profiler that was moved or stopped early") {
  using Clock = std::chrono::steady_clock;
  slp::SolveProfiler p{"solve"};
  slp::SetupProfiler sp{"setup"};
  PCHECK(p.name() == "solve" && sp.name() == "setup", "name");
  PCHECK(p.num_solves() == 0 && p.total_duration().count() == 0 && p.average_duration().count() == 0 && p.current_duration().count() == 0, "initial state");
  double sum = 0;
  c.scale_up(50);
  int n = c.size(1, 12, 500), special = 0;
  auto spin = [&] {
    volatile int k = c.range(0, 400);
    while (k > 0) k = k - 1;
  };
  for (int i = 0; i < n; ++i) {
    auto t0 = Clock::now();
    Clock::time_point t1, t2;
    int before = p.num_solves();
    switch (c.weighted({2, 2, 2, 2, 1})) {
      case 0:
        p.start();
        t1 = Clock::now();
        spin();
        t2 = Clock::now();
        p.stop();
        break;
      case 1: {
        slp::ScopedProfiler g{p};
        t1 = Clock::now();
        spin();
        t2 = Clock::now();
        PCHECK(p.num_solves() == before, "counted before the scope ended");
        break;
      }
      case 2: {
        slp::ScopedProfiler g{p};
        t1 = Clock::now();
        spin();
        t2 = Clock::now();
        g.stop();
        PCHECK(p.num_solves() == before + 1, "stop() not counted");
        PCHECK(g.current_duration().count() == p.current_duration().count(), "duration of the scoped profiler");
        if (c.coin()) g.stop();
        ++special;
        break;
      }
      case 3: {
        slp::ScopedProfiler g{p};
        t1 = Clock::now();
        {
          slp::ScopedProfiler h{std::move(g)};
          spin();
          t2 = Clock::now();
        }
        PCHECK(p.num_solves() == before + 1, "moved-to profiler did not stop");
        ++special;
        break;
      }
      default: {
        {
          slp::ScopedProfiler g{sp};
          t1 = Clock::now();
          spin();
          t2 = Clock::now();
        }
        auto t3 = Clock::now();
        double d = sp.duration().count();
        PCHECK(d >= std::chrono::duration<double>(t2 - t1).count() - 1e-9 && d <= std::chrono::duration<double>(t3 - t0).count() + 1e-9, "setup duration {}", d);
        PCHECK(p.num_solves() == before, "another profiler was counted");
        continue;
      }
    }
    auto t3 = Clock::now();
    double cur = p.current_duration().count();
    double lo = std::chrono::duration<double>(t2 - t1).count(), hi = std::chrono::duration<double>(t3 - t0).count();
    PCHECK(cur >= lo - 1e-9 && cur <= hi + 1e-9, "duration {} outside [{}, {}]", cur, lo, hi);
    sum += cur;
    PCHECK(p.num_solves() == before + 1, "{} measurements expected {}", p.num_solves(), before + 1);
    PCHECK(std::abs(p.total_duration().count() - sum) <= 1e-9 + 1e-6 * sum, "total {} expected {}", p.total_duration().count(), sum);
    double avg = sum / p.num_solves();
    PCHECK(std::abs(p.average_duration().count() - avg) <= 1e-9 + 1e-6 * avg, "average {} expected {}", p.average_duration().count(), avg);
  }
  c.nontrivial(p.num_solves() >= 3 && special >= 1);
}

// --- Spy -------------------------------------------------------------------------------------------

PROPERTY("spy_file", "at least two matrices with entries of both signs or an explicit zero") {
  const char* dir = getenv("PBT_SCRATCH");
  std::string path = std::format("{}/spy.{}", dir ? dir : "/tmp", getpid());
  auto word = [&] {
    std::string s;
    int n = c.size(0, 12, 400);
    for (int i = 0; i < n; ++i) s += c.pick({"a", "Z", " ", "λ", "\n", "0", "%", "\t"});
    return s;
  };
  c.scale_up(300);
  std::string title = word(), rl = word(), cl = word();
  int rows = c.size(0, 9, 1'000'000), cols = c.size(0, 9, 1000);
  // Large matrices are either sparse, or dense with up to 300 rows
  bool dense = c.large() && c.chance(1, 4);
  if (dense) rows = std::min(rows, 300), cols = std::min(cols, 300);
  struct Entry {
    int r, k;
    char s;
    bool operator<(const Entry& o) const { return std::tie(r, k, s) < std::tie(o.r, o.k, o.s); }
    bool operator==(const Entry&) const = default;
  };
  std::vector<std::vector<Entry>> want;
  bool pos = false, neg = false, zero = false;
  {
    slp::Spy<double> spy{path, title, rl, cl, rows, cols};
    int n = dense ? c.range(1, 2) : c.size(0, 5, 60);
    for (int m = 0; m < n; ++m) {
      Eigen::SparseMatrix<double> A{rows, cols};
      std::vector<Eigen::Triplet<double>> t;
      std::vector<Entry> w;
      auto entry = [&](pbt::Case& g, int r, int k) {
        double v = g.pick({1.0, -1.0, 0.0, 1e-300, -1e-300, 2.5, -3.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.0});
        t.emplace_back(r, k, v);
        w.push_back({r, k, v > 0 ? '+' : v < 0 ? '-' : '0'});
        pos |= v > 0;
        neg |= v < 0;
        zero |= v == 0;
      };
      if (c.large()) {  // the entries are generated from one draw
        pbt::Case sub{pbt::Case::Private{c.draw(1ull << 40)}};
        for (int k = 0; k < cols; ++k) {
          if (dense) {
            for (int r = 0; r < rows; ++r)
              if (sub.chance(9, 10)) entry(sub, r, k);
          } else {
            std::set<int> rs;
            for (int e = sub.range(0, 3); e > 0 && rows > 0; --e) rs.insert(static_cast<int>(sub.draw(rows)));
            for (int r : rs) entry(sub, r, k);
          }
        }
      } else {
        for (int k = 0; k < cols; ++k)
          for (int r = 0; r < rows; ++r)
            if (c.chance(1, 3)) entry(c, r, k);
      }
      A.setFromTriplets(t.begin(), t.end());
      if (c.chance(1, 3)) A.uncompress();
      spy.add(A);
      want.push_back(w);
    }
  }
  c.note("{}x{}, {} matrices", rows, cols, want.size());
  c.nontrivial(want.size() >= 2 && ((pos && neg) || zero));
  std::ifstream f{path, std::ios::binary};
  std::string data{std::istreambuf_iterator<char>{f}, {}};
  unlink(path.c_str());
  size_t at = 0;
  auto i32 = [&]() -> int64_t {
    PCHECK(at + 4 <= data.size(), "file ends early at {}", at);
    uint32_t v = 0;
    for (int b = 3; b >= 0; --b) v = (v << 8) | static_cast<unsigned char>(data[at + b]);
    at += 4;
    return static_cast<int32_t>(v);
  };
  auto str = [&] {
    int64_t n = i32();
    PCHECK(n >= 0 && at + n <= data.size(), "string of length {}", n);
    std::string s = data.substr(at, n);
    at += n;
    return s;
  };
  PCHECK(str() == title, "title");
  PCHECK(str() == rl, "row label");
  PCHECK(str() == cl, "column label");
  PCHECK(i32() == rows && i32() == cols, "shape");
  for (auto& w : want) {
    int64_t n = i32();
    PCHECK(n == static_cast<int64_t>(w.size()), "{} coordinates expected {}", n, w.size());
    std::vector<Entry> got;
    for (int64_t i = 0; i < n; ++i) {
      int r = static_cast<int>(i32()), k = static_cast<int>(i32());
      PCHECK(at < data.size(), "file ends early");
      got.push_back({r, k, data[at++]});
    }
    std::sort(got.begin(), got.end());
    std::sort(w.begin(), w.end());
    PCHECK(got == w, "coordinates differ");
  }
  PCHECK(at == data.size(), "{} stray bytes at the end", data.size() - at);
}

// --- Printing and formatting ----------------------------------------------------------------------

PROPERTY("format_enums", "a width, fill or alignment is given") {
  using enum slp::ExitStatus;
  using ET = slp::ExpressionType;
  static const std::pair<slp::ExitStatus, const char*> es[] = {
      {SUCCESS, "success"}, {CALLBACK_REQUESTED_STOP, "callback requested stop"}, {TOO_FEW_DOFS, "too few degrees of freedom"},
      {LOCALLY_INFEASIBLE, "locally infeasible"}, {GLOBALLY_INFEASIBLE, "globally infeasible"}, {FACTORIZATION_FAILED, "factorization failed"},
      {LINE_SEARCH_FAILED, "line search failed"}, {FEASIBILITY_RESTORATION_FAILED, "feasibility restoration failed"},
      {NONFINITE_INITIAL_GUESS, "nonfinite initial guess"}, {DIVERGING_ITERATES, "diverging iterates"},
      {MAX_ITERATIONS_EXCEEDED, "max iterations exceeded"}, {TIMEOUT, "timeout"}};
  static const std::pair<ET, const char*> ts[] = {{ET::NONE, "none"}, {ET::CONSTANT, "constant"}, {ET::LINEAR, "linear"}, {ET::QUADRATIC, "quadratic"}, {ET::NONLINEAR, "nonlinear"}};
  std::string spec;
  bool precision = false;
  if (c.coin()) {
    std::string align = c.pick({"<", ">", "^"});
    if (c.coin()) spec += c.pick({"*", "-", " "});
    spec += align;
  }
  if (c.chance(3, 4)) spec += std::format("{}", c.range(1, 40));
  if (c.chance(1, 4)) {
    spec += std::format(".{}", c.range(1, 12));
    precision = true;
  }
  std::string f = "{:" + spec + "}";
  c.nontrivial(!spec.empty());
  c.note("{}", f);
  auto& [e, en] = es[c.draw(std::size(es))];
  std::string a = std::vformat(f, std::make_format_args(e)), b = std::vformat(f, std::make_format_args(en));
  PCHECK(a == b, "'{}' expected '{}'", a, b);
  PCHECK((static_cast<int>(e) < 0) == (e != SUCCESS && e != CALLBACK_REQUESTED_STOP), "the sign of a status tells whether it failed");
  auto& [t, tn] = ts[c.draw(std::size(ts))];
  a = std::vformat(f, std::make_format_args(t));
  b = std::vformat(f, std::make_format_args(tn));
  PCHECK(a == b, "'{}' expected '{}'", a, b);
  if (!precision) {
    int p = c.range(-3, 2000), n = c.range(0, 20), z = c.range(0, 3);
    slp::Inertia in{p, n, z};
    a = std::vformat(f, std::make_format_args(in));
    b = std::vformat("(" + f + ", " + f + ", " + f + ")", std::make_format_args(p, n, z));
    PCHECK(a == b, "'{}' expected '{}'", a, b);
  }
}

PROPERTY("print", "the stream is writable and the text is not empty, or it is not writable") {
  std::string s;
  int n = c.range(0, 20);
  for (int i = 0; i < n; ++i) s += c.pick({"a", "{}", "Z", "%s", "\n", "é", " "});
  int k = c.range(-1000, 1000);
  bool writable = c.chance(2, 3);
  bool ln = c.coin();
  c.nontrivial(!writable || !s.empty());
  c.note("{} {}", writable, ln);
  char* buf = nullptr;
  size_t len = 0;
  FILE* f = writable ? open_memstream(&buf, &len) : fopen("/dev/null", "r");
  bool threw = false;
  try {
    if (ln) slp::println(f, "{}|{:>5}", s, k);
    else slp::print(f, "{}|{:>5}", s, k);
  } catch (...) {
    threw = true;
  }
  fclose(f);
  std::string out = writable ? std::string{buf, len} : "";
  free(buf);
  PCHECK(!threw, "printing threw on an unwritable stream");
  if (writable) PCHECK(out == std::format("{}|{:>5}", s, k) + (ln ? "\n" : ""), "printed '{}'", out);
}
