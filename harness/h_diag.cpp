// P40: what diagnostics print
#include <sys/mman.h>

#include <cstdio>
#include <cstdlib>

#include "model.hpp"

#include <sleipnir/util/print_diagnostics.hpp>

using namespace model;
using slp::ExitStatus;
using Info = slp::IterationInfo<double>;

namespace {

/// Runs f with standard output (the descriptor) captured
template <typename F>
std::string captured(F&& f) {
  std::fflush(stdout);
  int saved = dup(1), fd = memfd_create("out", 0);
  dup2(fd, 1);
  auto restore = [&] {
    std::fflush(stdout);
    dup2(saved, 1);
    close(saved);
  };
  try {
    f();
  } catch (...) {
    restore();
    close(fd);
    throw;
  }
  restore();
  std::string s;
  off_t n = lseek(fd, 0, SEEK_END);
  s.resize(n);
  if (n > 0 && pread(fd, s.data(), n, 0) != n) abort();
  close(fd);
  return s;
}

std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  size_t at = 0;
  while (at < s.size()) {
    size_t e = s.find('\n', at);
    if (e == s.npos) e = s.size();
    r.push_back(s.substr(at, e - at));
    at = e + 1;
  }
  return r;
}

/// The words of a line
std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> r;
  std::string w;
  for (char ch : s + " ") {
    if (ch == ' ' || ch == '\t') {
      if (!w.empty()) r.push_back(w);
      w.clear();
    } else {
      w += ch;
    }
  }
  return r;
}

bool has(const std::string& s, std::string_view t) { return s.find(t) != s.npos; }

std::string without(std::string s, std::string_view t) {
  for (size_t i; (i = s.find(t)) != s.npos;) s.replace(i, t.size(), " ");
  return s;
}

double number(const std::string& s) {
  char* e = nullptr;
  double v = std::strtod(s.c_str(), &e);
  PCHECK(e && *e == 0 && !s.empty(), "'{}' is not a number", s);
  return v;
}

/// Exponent of a power of ten as printed; INT_MIN for zero
int power(const std::string& s) {
  if (s == "0") return INT_MIN;
  if (s == "1") return 0;
  PCHECK(s.starts_with("10"), "'{}' is not a power of ten", s);
  std::string t = s.substr(2);
  if (t.empty()) return 1;
  bool neg = false;
  if (t.starts_with("⁻")) {
    neg = true;
    t = t.substr(std::string_view{"⁻"}.size());
  }
  static const char* digits[] = {"⁰", "¹", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹"};
  int n = 0;
  PCHECK(!t.empty(), "'{}' has no exponent", s);
  while (!t.empty()) {
    int d = -1;
    for (int i = 0; i < 10; ++i)
      if (t.starts_with(digits[i])) d = i;
    PCHECK(d >= 0, "'{}' is not a power of ten", s);
    n = 10 * n + d;
    t = t.substr(std::string_view{digits[d]}.size());
  }
  return neg ? -n : n;
}

/// Whether 10^e is what v rounds (up, down or to nearest) to
bool is_power(int e, double v) {
  if (v == 0) return e == INT_MIN;
  if (e == INT_MIN) return false;
  double l = std::log10(v);
  return std::abs(l - e) < 1 + 1e-9;
}

/// Whether a number printed with d digits after the first is v
bool shown(double p, double v, int d, double slack = 0) {
  if (std::isnan(v)) return std::isnan(p);
  if (std::isinf(v)) return p == v;
  return std::abs(p - v) <= 0.51 * std::pow(10.0, -d) * std::max(std::abs(v), std::abs(p)) + slack + 1e-300;
}

/// Width of a line in columns; everything printed is one column wide
int columns(const std::string& s) {
  int n = 0;
  for (char ch : s) n += (ch & 0xC0) != 0x80;
  return n;
}

/// Whether a line has a number that needs more room than there is (an exponent or a number of backtracks of three digits)
bool oversized(const std::string& s) {
  std::string_view bar = "│";
  if (s.ends_with(bar) && s.size() > bar.size() + 3) {
    auto t = s.substr(s.size() - bar.size() - 3, 3);
    if (!has(t, " ") && !has(t, "e")) return true;
  }
  for (size_t i = 0; i + 4 < s.size(); ++i)
    if (s[i] == 'e' && (s[i + 1] == '+' || s[i + 1] == '-') && isdigit(s[i + 2]) && isdigit(s[i + 3]) && isdigit(s[i + 4])) return true;
  return false;
}

bool table_line(const std::string& s) {
  for (auto t : {"┏", "┃", "┡", "│", "┢", "└"})
    if (s.starts_with(t)) return true;
  return false;
}

/// The lines of a table are as wide as its top, which has a heading below it
void check_tables(const std::vector<std::string>& L) {
  int width = 0;
  for (size_t i = 0; i < L.size(); ++i) {
    if (L[i].starts_with("┏")) {
      width = columns(L[i]);
      PCHECK(i + 1 < L.size() && L[i + 1].starts_with("┃"), "table without heading: {}", L[i]);
    }
    if (!table_line(L[i]) || oversized(L[i])) continue;
    PCHECK(width > 0, "outside of a table: {}", L[i]);
    PCHECK(columns(L[i]) == width, "{} columns instead of {}: {}", columns(L[i]), width, L[i]);
    if (L[i].starts_with("└")) width = 0;
  }
  PCHECK(width == 0, "table without end");
}

struct Row {
  int iteration;
  char type;
  double ms, error, cost, infeas, complem, mu;
  int delta, gamma;
  double ppr, pdu, apr, adu;
  int back;
};

/// Parses one row of the iteration table
Row row(const std::string& line) {
  auto w = words(without(line, "│"));
  Row r{};
  size_t i = 0;
  PCHECK(w.size() == 14 || w.size() == 15, "iteration row with {} columns: {}", w.size(), line);
  r.iteration = static_cast<int>(number(w[i++]));
  r.type = ' ';
  if (w.size() == 15) {
    PCHECK(w[i] == "s" || w[i] == "r", "iteration type '{}'", w[i]);
    r.type = w[i++][0];
  }
  for (double* d : {&r.ms, &r.error, &r.cost, &r.infeas, &r.complem, &r.mu}) *d = number(w[i++]);
  r.delta = power(w[i++]);
  r.gamma = power(w[i++]);
  for (double* d : {&r.ppr, &r.pdu, &r.apr, &r.adu}) *d = number(w[i++]);
  r.back = static_cast<int>(number(w[i++]));
  return r;
}

struct Trace {
  std::string name;
  double percent, total, each;
  int runs;
};

/// Parses one row of a time trace; bar: eighths that are filled
Trace trace(const std::string& line, bool solver) {
  Trace t{};
  auto w = words(without(without(without(line, "│"), "▕"), "▏ "));
  // the name is everything before the percentage
  size_t i = 0;
  while (i < w.size() && w[i].back() != '%') t.name += (t.name.empty() ? "" : " ") + w[i++];
  PCHECK(i < w.size(), "no percentage in {}", line);
  t.percent = number(w[i].substr(0, w[i].size() - 1));
  size_t a = line.find("%▕");
  PCHECK(a != line.npos, "no bar in {}", line);
  a += std::string_view{"%▕"}.size();
  int eighths = 0, cells = 0;
  bool ended = false;
  for (; cells < 9; ++cells) {
    if (line[a] == ' ') {
      ++a;
      ended = true;
      continue;
    }
    static const char* strs[] = {"▏", "▎", "▍", "▌", "▋", "▊", "▉", "█"};
    int k = -1;
    for (int j = 0; j < 8; ++j)
      if (line.compare(a, std::string_view{strs[j]}.size(), strs[j]) == 0) k = j;
    PCHECK(k >= 0 && !ended, "bar in {}", line);
    eighths += k + 1;
    ended = k < 7;
    a += std::string_view{strs[k]}.size();
  }
  PCHECK(line.compare(a, std::string_view{"▏"}.size(), "▏") == 0, "bar does not end after {} cells: {}", cells, line);
  double want = std::clamp(t.percent / 100, 0.0, 1.0) * 72;
  PCHECK(std::abs(eighths - want) < 1.02, "bar of {} eighths for {}%: {}", eighths, t.percent, line);
  auto rest = words(without(line.substr(a + std::string_view{"▏"}.size()), "│"));
  PCHECK(rest.size() == (solver ? 3u : 1u), "{} columns after the bar: {}", rest.size(), line);
  t.total = number(rest[0]);
  if (solver) {
    t.each = number(rest[1]);
    t.runs = static_cast<int>(number(rest[2]));
  }
  return t;
}

const char* word(slp::ExpressionType t) {
  switch (t) {
    case slp::ExpressionType::NONE: return "no";
    case slp::ExpressionType::CONSTANT: return "constant";
    case slp::ExpressionType::LINEAR: return "linear";
    case slp::ExpressionType::QUADRATIC: return "quadratic";
    default: return "nonlinear";
  }
}

struct Seen {
  Vec x, s, y, z, g;
};

struct Listed {
  int index, count;
  double value;
};

}  // namespace

PROPERTY("diagnostics_report", "at least two iterations are printed, or violated or conflicting constraints are named") {
  int mode = c.weighted({8, 2, 3, 2, 1, 1, 2});
  Model m = gen_general(c, 4);
  int n = m.n;
  if (mode == 2) {
    // As many or more equality constraints than variables
    int ne = c.range(n, n + 2);
    m.eq.clear();
    for (int i = 0; i < ne; ++i) {
      Fn f(n);
      f.l = gen_dir(c, n);
      f.k = -f.l.dot(m.x0) + c.pick({0.0, 1.0, -1.0, 0.5, -2.0});
      m.eq.push_back(f);
    }
  } else if (mode == 3) {
    // Bounds that conflict
    int k = c.range(0, n - 1);
    double b = c.grid(-2, 2), gap = c.pick({1.0, 0.5, -1.0, 0.0});
    for (int s : {1, -1}) {
      Fn f(n);
      double w = c.pick({1.0, 2.0, 0.5});
      f.l[k] = s * w;
      f.k = s > 0 ? -(b + gap) * w : b * w;
      m.in.insert(m.in.begin() + c.range(0, static_cast<int>(m.in.size())), f);
    }
  } else if (mode == 4) {
    // Constants only
    m.has_cost = c.coin();
    m.f = Fn(n);
    m.f.k = c.grid(-2, 2);
    m.eq.clear();
    m.in.clear();
    for (int i = c.range(0, 2); i > 0; --i) m.eq.push_back(Fn(n)), m.eq.back().k = c.pick({0.0, 1.0});
    for (int i = c.range(0, 2); i > 0; --i) m.in.push_back(Fn(n)), m.in.back().k = c.pick({0.0, 1.0, -1.0});
  } else if (mode == 6) {
    // Constraints nobody can satisfy
    m.eq.clear();
    m.in.clear();
    int k = c.range(1, std::min(n, 3));
    for (int i = 0; i < k; ++i) {
      Fn f(n);
      Vec a = gen_dir(c, n);
      double sign = c.pick({1.0, -1.0});
      f.terms.push_back({c.pick({SQ, HYP, LOGCOSH}), sign, a, c.grid(-1, 1)});
      f.k = sign * c.pick({0.5, 1.0, -2.0, 3.0});
      (c.coin() ? m.eq : m.in).push_back(f);
    }
  }
  m.note(c);
  slp::Options o;
  o.diagnostics = true;
  o.tolerance = c.pick({1e-8, 1e-5, 2.5e-7});
  o.max_iterations = c.pick({60, 60, 60, 1, 3, 7});
  if (c.chance(1, 4)) o.timeout = std::chrono::duration<double>{c.pick({100.0, 2000.0, 12.5})};
  o.feasible_ipm = c.chance(1, 8);
  bool nonfinite = mode == 5;
  int callbacks = c.range(0, 2);  // 0: none, 1: ordinary, 2: persistent
  int stop_at = callbacks && c.chance(1, 4) ? c.range(0, 4) : -1;

  struct Outcome {
    ExitStatus status;
    Vec x;
    std::vector<Seen> seen;
    std::string out;
    slp::ExpressionType tf, te, ti;
    std::vector<slp::ExpressionType> te_all, ti_all;
  };
  auto run = [&](bool diagnostics) {
    Outcome r;
    slp::Problem<double> p;
    std::vector<V> x;
    x.reserve(n);
    VM xs = p.decision_variable(n);
    for (int i = 0; i < n; ++i) x.push_back(xs[i]), x[i].set_value(m.x0[i]);
    Speller sp{c, x, nullptr, true};
    V bad = nonfinite ? V{slp::log(x[0] - m.x0[0])} : V{0.0};
    if (m.has_cost) p.minimize(nonfinite ? sp.fn(m.f) + bad : sp.fn(m.f));
    else if (nonfinite) p.minimize(bad);
    for (auto& f : m.eq) {
      V e = sp.fn(f);
      r.te_all.push_back(e.type());
      p.subject_to(e == 0.0);
    }
    for (auto& f : m.in) {
      V e = sp.fn(f);
      r.ti_all.push_back(e.type());
      p.subject_to(e >= 0.0);
    }
    auto cb = [&](const Info& i) -> bool {
      r.seen.push_back({i.x, i.s, i.y, i.z, Vec(i.g)});
      return static_cast<int>(r.seen.size()) == stop_at + 1;
    };
    if (callbacks == 1) p.add_callback(cb);
    if (callbacks == 2) p.add_persistent_callback(cb);
    r.tf = p.cost_function_type();
    r.te = p.equality_constraint_type();
    r.ti = p.inequality_constraint_type();
    slp::Options q = o;
    q.diagnostics = diagnostics;
    r.out = captured([&] { r.status = p.solve(q); });
    r.x = values(x);
    return r;
  };
  Outcome r = run(true);
  c.label(std::format("{}", r.status));
  auto L = lines(r.out);
  if (getenv("PBT_SHOW")) c.note("{}", r.out);

  if (c.chance(1, 4)) {
    Outcome q = run(false);
    PCHECK(q.out.empty(), "printed without being asked: {}", q.out.substr(0, 200));
    PCHECK(q.status == r.status, "{} with diagnostics, {} without", r.status, q.status);
    for (int i = 0; i < n; ++i) PCHECK(q.x[i] == r.x[i] || (std::isnan(q.x[i]) && std::isnan(r.x[i])), "x{} is {} with diagnostics and {} without", i, r.x[i], q.x[i]);
  }

  auto count = [&](auto&& pred) { return std::count_if(L.begin(), L.end(), pred); };
  auto only = [&](std::string_view t, int want) {
    auto k = count([&](const std::string& s) { return has(s, t); });
    PCHECK(k == want, "'{}' printed {} times instead of {}", t, k, want);
  };
  auto find = [&](std::string_view t) -> std::string {
    for (auto& s : L)
      if (has(s, t)) return s;
    return "";
  };
  auto after = [&](std::string_view t) {
    std::string s = find(t);
    PCHECK(!s.empty(), "no '{}'", t);
    return words(s.substr(s.find(t) + t.size()));
  };

  check_tables(L);

  // Exit conditions
  only("error below", 1);
  PCHECK(number(after("error below").at(0)) == o.tolerance, "tolerance '{}' instead of {}", find("error below"), o.tolerance);
  only("callback requested stop", (callbacks > 0) + (r.status == ExitStatus::CALLBACK_REQUESTED_STOP));
  only("executed ", 1);
  PCHECK(number(after("executed").at(0)) == o.max_iterations, "'{}' instead of {}", find("executed"), o.max_iterations);
  only(" elapsed", std::isfinite(o.timeout.count()));
  if (std::isfinite(o.timeout.count())) {
    auto w = words(find(" elapsed"));
    std::string t = w.at(w.size() - 2);
    PCHECK(t.ends_with("s") && number(t.substr(0, t.size() - 1)) == o.timeout.count(), "timeout '{}' instead of {}", t, o.timeout.count());
  }

  // Structure
  only(std::format("{} cost function", word(r.tf)), 1);
  for (auto& [t, what] : {std::pair{r.te, "equality constraints"}, std::pair{r.ti, "inequality constraints"}}) {
    auto k = count([&](const std::string& s) { return s.ends_with(std::format(" {} {}", word(t), what)); });
    PCHECK(k == 1, "'{} {}' printed {} times", word(t), what, k);
  }
  {
    size_t i = 0;
    auto at = [&](const std::string& want) {
      while (i < L.size() && L[i] != want) ++i;
      PCHECK(i < L.size(), "no line '{}'", want);
      ++i;
    };
    auto plural = [](size_t k, const char* what) { return std::format("{} {}{}", k, what, k == 1 ? "" : "s"); };
    at(plural(n, "decision variable"));
    auto kinds = [&](const std::vector<slp::ExpressionType>& ts) {
      std::map<std::string, int> want, got;
      for (auto t : ts) ++want[t == slp::ExpressionType::NONE ? "empty" : word(t)];
      while (i < L.size() && has(L[i], "↳")) {
        auto w = words(without(L[i], "↳"));
        PCHECK(w.size() == 2, "'{}'", L[i]);
        got[w[1]] += static_cast<int>(number(w[0]));
        ++i;
      }
      PCHECK(want == got, "kinds of constraints after '{}'", L[i - got.size() - 1]);
    };
    at(plural(m.eq.size(), "equality constraint"));
    kinds(r.te_all);
    at(plural(m.in.size(), "inequality constraint"));
    kinds(r.ti_all);
  }

  // Solver
  auto constant = [](slp::ExpressionType t) { return t <= slp::ExpressionType::CONSTANT; };
  bool noop = constant(r.tf) && constant(r.te) && constant(r.ti);
  bool ipm = !m.in.empty(), sqp = !ipm && !m.eq.empty();
  only("Invoking ", 1);
  const char* name = noop ? "no-op" : ipm ? "IPM" : sqp ? "SQP" : "Newton";
  only(std::format("Invoking {} solver", name), 1);
  if (nonfinite) {
    PCHECK(r.status == ExitStatus::NONFINITE_INITIAL_GUESS || r.status == ExitStatus::GLOBALLY_INFEASIBLE, "{}", r.status);
  }

  // Exit
  auto exits = count([](const std::string& s) { return s.starts_with("Exit: "); });
  if (noop || r.status == ExitStatus::GLOBALLY_INFEASIBLE) PCHECK(exits <= 1, "{} exits", exits);
  else PCHECK(exits == 1, "{} exits", exits);
  for (auto& s : L)
    if (s.starts_with("Exit: ")) PCHECK(s == std::format("Exit: {}", r.status), "'{}' but returned {}", s, r.status);

  // The scale of everything printed is that of the problem unless derivatives at the start are large
  LVec x0 = m.x0.cast<LD>();
  auto row_max = [&](const LMat& A) { return A.size() ? static_cast<double>(A.cwiseAbs().maxCoeff()) : 0.0; };
  bool scaled_c = row_max(m.A_e(x0)) > 99.9 || row_max(m.A_i(x0)) > 99.9;
  bool scaled_f = m.g(x0).size() && static_cast<double>(m.g(x0).cwiseAbs().maxCoeff()) > 99.9;
  bool restoration = false;
  for (auto& s : r.seen) restoration |= s.x.size() != n;

  // Violated and conflicting constraints
  std::map<std::string, std::vector<Listed>> lists;
  std::vector<std::pair<int, int>> conflicts;
  {
    std::string in;
    for (auto& s : L) {
      if (has(s, "Violated constraints (cₑ")) in = "eq";
      else if (has(s, "Violated constraints (cᵢ")) in = "in";
      else if (!in.empty() && s.starts_with("  ") && has(s, "/") && has(s, in == "eq" ? " = 0" : " ≥ 0")) {
        auto w = words(s);
        PCHECK(w.size() == 4, "'{}'", s);
        size_t k = w[0].find('/');
        PCHECK(w[0].back() == ':' && k != w[0].npos, "'{}'", s);
        lists[in].push_back({static_cast<int>(number(w[0].substr(0, k))), static_cast<int>(number(w[0].substr(k + 1, w[0].size() - k - 2))), number(w[1])});
      } else {
        in.clear();
      }
      if (has(s, "gives a lower bound")) {
        std::vector<int> ix;
        for (auto& t : words(s))
          if (isdigit(static_cast<unsigned char>(t[0]))) ix.push_back(static_cast<int>(number(t)));
        PCHECK(ix.size() == 2, "'{}'", s);
        conflicts.push_back({ix[0], ix[1]});
      }
    }
  }
  bool e_header = !find("Violated constraints (cₑ").empty(), i_header = !find("Violated constraints (cᵢ").empty();
  only("too few degrees of freedom", (r.status == ExitStatus::TOO_FEW_DOFS) * (1 + exits));
  if (r.status == ExitStatus::TOO_FEW_DOFS) PCHECK(e_header, "too few degrees of freedom without the list of constraints");
  if (!find("locally infeasible due to").empty()) PCHECK(r.status == ExitStatus::LOCALLY_INFEASIBLE || restoration || callbacks == 0, "calls the problem locally infeasible, but returns {}", r.status);
  auto check_list = [&](const std::string& which, const LVec& v, const std::vector<Fn>& fs) {
    size_t k = 0;
    auto& l = lists[which];
    for (int i = 0; i < static_cast<int>(v.size()); ++i) {
      LD mag;
      fs[i].value(r.x.cast<LD>(), &mag);
      double tol = 1e-12 * (1 + static_cast<double>(mag));
      bool violated = which == "eq" ? std::abs(static_cast<double>(v[i])) > 1e-6 + tol : static_cast<double>(v[i]) < -1e-6 - tol;
      bool satisfied = which == "eq" ? std::abs(static_cast<double>(v[i])) == 0 && tol == 0 : static_cast<double>(v[i]) > tol;
      bool listed = k < l.size() && l[k].index == i + 1;
      PCHECK(!violated || listed, "{} constraint {} of value {} is violated, but not listed", which, i + 1, static_cast<double>(v[i]));
      PCHECK(!satisfied || !listed, "{} constraint {} of value {} is satisfied, but listed", which, i + 1, static_cast<double>(v[i]));
      if (listed) {
        PCHECK(l[k].count == static_cast<int>(fs.size()), "{} of {}", l[k].count, fs.size());
        double p = l[k].value, want = static_cast<double>(v[i]);
        if (scaled_c) PCHECK((p < 0) == (want < 0) || std::abs(want) < tol, "{} constraint {} listed with {} instead of {}", which, i + 1, p, want);
        else PCHECK(std::abs(p - want) <= tol, "{} constraint {} listed with {} instead of {}", which, i + 1, p, want);
        ++k;
      }
    }
    PCHECK(k == l.size(), "'{}' list has {} entries, {} in order", which, l.size(), k);
  };
  // Without a callback, feasibility restoration cannot be told; its own problem is not this one
  bool plain_end = callbacks && !restoration;
  bool named = false;
  if (r.status == ExitStatus::TOO_FEW_DOFS) {
    check_list("eq", m.c_e(x0), m.eq);
    named = true;
  } else if (plain_end && (e_header || i_header)) {
    LVec xe = r.x.cast<LD>();
    if (e_header) check_list("eq", m.c_e(xe), m.eq);
    if (i_header) check_list("in", m.c_i(xe), m.in);
    named = true;
  }
  if (r.status == ExitStatus::GLOBALLY_INFEASIBLE && !noop) {
    PCHECK(!conflicts.empty() && !find("globally infeasible").empty(), "{} without saying why", r.status);
    named = true;
  } else {
    PCHECK(conflicts.empty() && find("globally infeasible").empty(), "names conflicting bounds, but returns {}", r.status);
  }
  for (auto [a, b] : conflicts) {
    PCHECK(a >= 0 && b >= 0 && a < static_cast<int>(m.in.size()) && b < static_cast<int>(m.in.size()) && a != b, "conflict between {} and {}", a, b);
    const Fn &lo = m.in[a], &hi = m.in[b];
    PCHECK(lo.linear() && hi.linear(), "conflict between {} and {}", a, b);
    int k = -1;
    for (int i = 0; i < n; ++i) {
      if (lo.l[i] != 0) {
        PCHECK(k < 0, "constraint {} is no bound", a);
        k = i;
      }
    }
    PCHECK(k >= 0 && lo.l[k] > 0 && hi.l[k] < 0, "{} and {} are not a lower and an upper bound", a, b);
    for (int i = 0; i < n; ++i) PCHECK(i == k || hi.l[i] == 0, "constraint {} is no bound", b);
    PCHECK(-lo.k / lo.l[k] > hi.k / -hi.l[k], "bounds {} and {} do not conflict", a, b);
  }

  // Iterations
  std::vector<Row> rows;
  for (auto& s : L)
    if (s.starts_with("│ ") && has(s, "e") && !has(s, "%") && !has(s, "▕")) rows.push_back(row(s));
  std::vector<Row> steps;
  std::set<int> corrected;
  bool restored = false;
  for (auto& w : rows) {
    if (w.type == ' ') steps.push_back(w);
    if (w.type == 's') corrected.insert(w.iteration);
    // Feasibility restoration in between takes up iteration numbers
    if (w.type == ' ' && &w != rows.data() && (&w)[-1].type == 'r') corrected.insert(w.iteration);
    restored |= w.type == 'r';
  }
  // A correction that is accepted is the step of its iteration
  for (size_t i = 0; i + 1 < rows.size() && callbacks && !restoration; ++i) {
    auto &s = rows[i], &w = rows[i + 1];
    if (s.type != 's' || w.type != ' ' || w.iteration != s.iteration) continue;
    auto eq = [](double u, double v) { return u == v || (std::isnan(u) && std::isnan(v)); };
    c.label("accepted correction");
    PCHECK(eq(s.cost, w.cost) && (eq(s.infeas, w.infeas) || o.feasible_ipm), "iteration {}: the correction has cost {} and infeasibility {}, the iteration it ends has {} and {}", w.iteration, s.cost, s.infeas, w.cost, w.infeas);
    PCHECK(eq(s.ppr, w.ppr) && eq(s.pdu, w.pdu) && eq(s.apr, w.apr), "iteration {}: the correction has steps {} {} of length {}, the iteration it ends {} {} of {}", w.iteration, s.ppr, s.pdu, s.apr, w.ppr, w.pdu, w.apr);
  }
  if (callbacks && !restoration) PCHECK(!restored, "rows of feasibility restoration, but there was none");
  restored |= restoration;
  int calls = static_cast<int>(r.seen.size()), S = static_cast<int>(steps.size());
  for (auto& w : rows) {
    PCHECK(w.ms >= 0 && w.ms < 1e5, "iteration {} took {} ms", w.iteration, w.ms);
    PCHECK(!(w.apr < 0) && w.apr <= 1 && !(w.adu < 0) && w.adu <= 1, "iteration {}: step sizes {} {}", w.iteration, w.apr, w.adu);
    // The step of a second-order correction is compared with the limit of the step it replaced
    if (!corrected.contains(w.iteration)) PCHECK(w.back >= 0, "iteration {}: {} backtracks", w.iteration, w.back);
    PCHECK(!(w.infeas < 0), "iteration {}: infeasibility {}", w.iteration, w.infeas);
    if ((w.type == ' ' || (w.type == 's' && !restored)) && !ipm) {
      PCHECK(w.complem == 0 && w.mu == 0, "iteration {}: complementarity {} and barrier {} without inequalities", w.iteration, w.complem, w.mu);
      if (!sqp) PCHECK(w.infeas == 0, "iteration {}: infeasibility {} without constraints", w.iteration, w.infeas);
      PCHECK(shown(w.apr, std::ldexp(1.0, -w.back), 2), "iteration {}: step size {} after {} backtracks", w.iteration, w.apr, w.back);
    }
  }
  if (!restored) {
    for (int i = 0; i < S; ++i) PCHECK(steps[i].iteration == i, "row {} of iteration {}", i, steps[i].iteration);
    if (callbacks) {
      PCHECK(S == calls || S == calls - 1, "{} rows, but {} iterations", S, calls);
      if (r.status == ExitStatus::SUCCESS || r.status == ExitStatus::MAX_ITERATIONS_EXCEEDED) PCHECK(S == calls, "{} rows, but {} iterations", S, calls);
      if (r.status == ExitStatus::CALLBACK_REQUESTED_STOP) PCHECK(S == calls - 1, "{} rows, but {} iterations", S, calls);
    }
    if (r.status == ExitStatus::MAX_ITERATIONS_EXCEEDED) PCHECK(S == o.max_iterations, "{} rows of {} iterations", S, o.max_iterations);
    for (int i = 0; i < S; ++i) {
      bool last = i == S - 1;
      if (last && r.status == ExitStatus::SUCCESS) PCHECK(steps[i].error <= o.tolerance * 1.0001, "success, but the last error is {}", steps[i].error);
      // solved ones stop
      if (!last) PCHECK(!(steps[i].error < o.tolerance * 0.9999), "goes on after iteration {} with error {}", i, steps[i].error);
    }
  }
  // Functions like log(cosh(u)) lose digits where they are small
  double unit = 1e-14;
  auto weigh = [&](const Fn& f) {
    for (auto& t : f.terms) unit += 1e-15 * std::abs(t.w);
  };
  weigh(m.f);
  for (auto& f : m.eq) weigh(f);
  for (auto& f : m.in) weigh(f);
  if (!restored && callbacks) {
    for (int i = 0; i < S; ++i) {
      const Row& w = steps[i];
      bool final = i + 1 >= calls;
      Vec x = final ? r.x : r.seen[i + 1].x;
      if (!x.allFinite()) continue;
      LVec lx = x.cast<LD>();
      LD mag = 0;
      // Overflow is not what this is about
      bool huge = !(std::abs(m.f.value(lx)) < 1e100L);
      for (LVec v : {m.c_e(lx), m.c_i(lx)})
        for (LD t : v) huge |= !(std::abs(t) < 1e100L);
      if (huge || !std::isfinite(w.cost) || !std::isfinite(w.infeas)) continue;
      if (!scaled_f) {
        double f = m.has_cost ? static_cast<double>(m.f.value(lx, &mag)) : 0;
        PCHECK(shown(w.cost, f, 4, unit + 1e-13 * static_cast<double>(mag)), "iteration {}: cost {} instead of {}", i, w.cost, f);
      }
      LVec ce = m.c_e(lx), ci = m.c_i(lx);
      double slack = unit;
      for (auto& f : m.eq) f.value(lx, &mag), slack += 1e-13 * static_cast<double>(mag);
      for (auto& f : m.in) f.value(lx, &mag), slack += 1e-13 * static_cast<double>(mag);
      if (!scaled_c && !ipm) {
        double v = static_cast<double>(ce.size() ? ce.cwiseAbs().sum() : 0);
        PCHECK(shown(w.infeas, v, 4, slack), "iteration {}: infeasibility {} instead of {}", i, w.infeas, v);
      }
      if (!scaled_c && ipm && !final) {
        const Seen& q = r.seen[i + 1];
        LVec t = ci - q.s.cast<LD>();
        double v = static_cast<double>((ce.size() ? ce.cwiseAbs().sum() : 0) + t.cwiseAbs().sum());
        slack += 1e-13 * q.s.cwiseAbs().sum();
        PCHECK(shown(w.infeas, v, 4, slack), "iteration {}: infeasibility {} instead of {}", i, w.infeas, v);
        double k = q.s.dot(q.z);
        PCHECK(shown(w.complem, k, 2, 1e-14 * q.s.cwiseProduct(q.z).cwiseAbs().sum()), "iteration {}: complementarity {} instead of {}", i, w.complem, k);
      }
      if (!scaled_f && !scaled_c && (!final || (!sqp && !ipm))) {
        // The error is that of the Karush-Kuhn-Tucker conditions at the new iterate
        LVec y = final ? LVec(0) : LVec(r.seen[i + 1].y.cast<LD>()), z = final ? LVec(0) : LVec(r.seen[i + 1].z.cast<LD>()), sl = final ? LVec(0) : LVec(r.seen[i + 1].s.cast<LD>());
        LVec g = m.g(lx);
        LD gm = g.size() ? g.cwiseAbs().maxCoeff() : 0;
        if (y.size()) g -= m.A_e(lx).transpose() * y, gm += (m.A_e(lx).cwiseAbs().transpose() * y.cwiseAbs()).maxCoeff();
        if (z.size()) g -= m.A_i(lx).transpose() * z, gm += (m.A_i(lx).cwiseAbs().transpose() * z.cwiseAbs()).maxCoeff();
        LD sd = 1, sc = 1;
        if (y.size() + z.size()) sd = std::max<LD>(100, (y.cwiseAbs().sum() + z.cwiseAbs().sum()) / (y.size() + z.size())) / 100;
        if (z.size()) sc = std::max<LD>(100, z.cwiseAbs().sum() / z.size()) / 100;
        LD e = g.cwiseAbs().maxCoeff() / sd;
        if (ce.size()) e = std::max(e, ce.cwiseAbs().maxCoeff());
        if (ci.size() && sl.size()) e = std::max({e, (ci - sl).cwiseAbs().maxCoeff(), sl.cwiseProduct(z).cwiseAbs().maxCoeff() / sc});
        double size = 1 + x.cwiseAbs().maxCoeff();
        PCHECK(shown(w.error, static_cast<double>(e), 4, slack + 1e-13 * size * static_cast<double>(1 + gm + mag)), "iteration {}: error {} instead of {}", i, w.error, static_cast<double>(e));
      }
      // The step that was taken. A full step accepted in spite of everything is not what is printed.
      if (w.apr < 1e-6 || corrected.contains(i) || i >= calls) continue;
      const Seen& p = r.seen[i];
      double dx = (x - p.x).cwiseAbs().maxCoeff(), xm = std::max(x.cwiseAbs().maxCoeff(), p.x.cwiseAbs().maxCoeff());
      if (ipm && !final && !o.feasible_ipm) {
        double ds = (r.seen[i + 1].s - p.s).cwiseAbs().maxCoeff();
        double sm = std::max(r.seen[i + 1].s.cwiseAbs().maxCoeff(), p.s.cwiseAbs().maxCoeff());
        dx = std::max(dx, ds);
        xm = std::max(xm, sm);
      }
      bool whole = !ipm || (!final && !o.feasible_ipm);
      double rounding = 1e-15 * xm / w.apr;
      double step = dx / w.apr;
      // printed to three digits each
      if (whole) PCHECK(std::abs(w.ppr - step) <= 0.012 * std::max(step, w.ppr) + 4 * rounding, "iteration {}: step of {} times {}, but the iterate moved by {}", i, w.ppr, w.apr, dx);
      else PCHECK(w.ppr >= step * 0.988 - 4 * rounding, "iteration {}: step of {} times {}, but the iterate moved by {}", i, w.ppr, w.apr, dx);
      if (sqp && !final && w.adu > 0) {
        double dy = (r.seen[i + 1].y - p.y).cwiseAbs().maxCoeff(), ym = std::max(r.seen[i + 1].y.cwiseAbs().maxCoeff(), p.y.cwiseAbs().maxCoeff());
        double ds = dy / w.adu;
        PCHECK(std::abs(w.pdu - ds) <= 0.012 * std::max(ds, w.pdu) + 4e-15 * ym / w.adu, "iteration {}: dual step of {} times {}, but the multipliers moved by {}", i, w.pdu, w.adu, dy);
      }
    }
  }

  // Time traces
  std::vector<std::vector<Trace>> tables;
  {
    bool open = false;
    for (auto& s : L) {
      if (has(s, "%▕")) {
        if (!open) tables.emplace_back();
        open = true;
        tables.back().push_back(trace(s, tables.size() == 2));
      } else {
        open = false;
      }
    }
  }
  PCHECK(tables.size() <= 2, "{} time traces", tables.size());
  if (noop) PCHECK(tables.empty(), "time trace of the no-op solver");
  else PCHECK(tables.size() >= 1, "no time trace of the setup");
  if (!tables.empty()) {
    auto& t = tables[0];
    PCHECK(t[0].name == "setup", "first row of the setup is '{}'", t[0].name);
    std::set<std::string> names;
    for (auto& e : t) names.insert(e.name);
    PCHECK(names.size() == t.size(), "a row of the setup is repeated");
    PCHECK(names.contains("↳ ∇f(x)") && names.contains("↳ ∇²ₓₓL"), "setup without derivatives");
    PCHECK(names.contains("↳ ∂cₑ/∂x") == (sqp || ipm) && names.contains("↳ ∂cᵢ/∂x") == ipm, "rows of the setup");
    for (auto& e : t) PCHECK(e.total >= 0 && e.total <= t[0].total + 0.0011 && std::abs(e.percent - (t[0].total > 0 ? 100 * e.total / t[0].total : &e == &t[0] ? 100 : 0)) < 0.02, "{}: {}% {}", e.name, e.percent, e.total);
  }
  if (tables.size() == 2) {
    auto& t = tables[1];
    std::map<std::string, Trace> by;
    for (auto& e : t) by[e.name] = e;
    PCHECK(by.size() == t.size(), "a row of the time trace is repeated");
    PCHECK(t[0].name == "solver" && t[0].runs == 1, "first row of the time trace is '{}' with {} runs", t[0].name, t[0].runs);
    for (auto& e : t) {
      PCHECK(e.runs >= 0, "{}: {} runs", e.name, e.runs);
      if (e.runs == 0) PCHECK(e.total == 0 && e.each == 0, "{}: {} ms in no run", e.name, e.total);
      // the printed numbers were rounded down
      else PCHECK(std::abs(e.total / e.runs - e.each) < 0.00151, "{}: {} runs of {} are {}", e.name, e.runs, e.each, e.total);
      PCHECK(e.total <= t[0].total + 0.0011, "{}: {} of {}", e.name, e.total, t[0].total);
      PCHECK(std::abs(e.percent - (t[0].total > 0 ? 100 * e.total / t[0].total : &e == &t[0] ? 100 : 0)) < 0.02, "{}: {}% of {}", e.name, e.percent, e.total);
    }
    auto runs = [&](const char* k) {
      PCHECK(by.contains(k), "no '{}' in the time trace", k);
      return by[k].runs;
    };
    PCHECK(runs("↳ setup") == 1, "setup ran {} times", runs("↳ setup"));
    int it = runs("↳ iteration");
    if (!restored && callbacks) {
      PCHECK(it == calls || it == calls + 1, "iteration ran {} times, but there were {}", it, calls);
      if (r.status == ExitStatus::SUCCESS || r.status == ExitStatus::MAX_ITERATIONS_EXCEEDED || r.status == ExitStatus::CALLBACK_REQUESTED_STOP) PCHECK(it == calls, "iteration ran {} times, but there were {}", it, calls);
    }
    if (!restored) {
      PCHECK(it == S || it == S + 1, "iteration ran {} times, but {} rows", it, S);
      for (auto k : {"↳ KKT matrix build", "↳ KKT matrix decomp", "↳ KKT system solve", "↳ line search", "↳ callbacks", "↳ feasibility check"}) {
        if (!sqp && !ipm && std::string_view{k} == "↳ KKT matrix build") continue;
        PCHECK(runs(k) >= S && runs(k) <= it, "{} ran {} times in {} iterations", k, runs(k), it);
      }
      // each iteration evaluates everything at a new point
      PCHECK(runs("↳ f(x)") >= S && runs("↳ ∇f(x)") >= S && runs("↳ ∇²ₓₓL") >= S, "fewer evaluations than rows");
      if (sqp || ipm) {
        PCHECK(runs("↳ cₑ(x)") >= S && runs("↳ ∂cₑ/∂x") >= S, "fewer evaluations than rows");
        PCHECK(runs("↳ SOC") >= static_cast<int>(corrected.size()), "fewer corrections than rows");
      }
      if (ipm) PCHECK(runs("↳ cᵢ(x)") >= S && runs("↳ ∂cᵢ/∂x") >= S, "fewer evaluations than rows");
    }
  } else {
    PCHECK(rows.empty(), "iterations without a time trace");
  }
  c.nontrivial(S >= 2 || named);
}

PROPERTY("diagnostic_rows", "all numbers are finite and some are tiny or huge") {
  auto num = [&](bool neg) {
    double v = c.pick({0.0, 1.0, 2.5, 9.99996, 1.23456789, 0.1}) * std::pow(10.0, c.range(-300, 300) / c.pick({1, 10, 100}));
    if (neg && c.coin()) v = -v;
    return v;
  };
  int it = c.range(0, 9999);
  auto type = c.pick({slp::IterationType::NORMAL, slp::IterationType::SECOND_ORDER_CORRECTION, slp::IterationType::FEASIBILITY_RESTORATION});
  int us = c.range(0, 5'000'000);
  std::chrono::duration<double> time{us / 1e6 + 1e-7};
  double error = num(false), cost = num(true), infeas = num(false), complem = num(false), mu = num(false), ppr = num(false), pdu = num(false);
  double delta = c.coin() ? 0 : std::pow(10.0, c.range(-20, 40)), gamma = c.coin() ? 0 : std::pow(10.0, c.range(-20, 5));
  if (c.chance(1, 8)) {
    double bad = c.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
    *c.pick({&error, &cost, &infeas}) = bad;
  } else {
    c.nontrivial(std::abs(std::log10(std::abs(cost) + 1e-310)) > 20);
  }
  double factor = c.pick({0.5, 0.25, 0.1, 0.7}), amax = c.pick({1.0, 0.3, 0.01, 0.995});
  int back = c.range(0, factor == 0.5 ? 24 : 12);
  double a = amax;
  for (int i = 0; i < back; ++i) a *= factor;
  double adu = c.pick({1.0, 0.5, 1e-9, 0.0});
  c.note("{} {} {} {} {} {} {} {} {} {} {} {} {}", it, us, error, cost, infeas, complem, mu, delta, gamma, ppr, pdu, a, back);
  auto out = captured([&] { slp::print_iteration_diagnostics(it, type, time, error, cost, infeas, complem, mu, delta, gamma, ppr, pdu, a, amax, factor, adu); });
  auto L = lines(out);
  PCHECK(!L.empty() && (it % 20 != 0 || L.size() > 1), "{} lines", L.size());
  PCHECK(has(out, "iter") == (it % 20 == 0), "{} heading at iteration {}", has(out, "iter") ? "a" : "no", it);
  PCHECK(it == 0 ? L[0].starts_with("┏") : it % 20 != 0 || L[0].starts_with("┢"), "top of the heading at iteration {}: {}", it, L[0]);
  for (auto& l : L) {
    // 119 columns between the borders
    if (!oversized(l) && delta < 1e20 && gamma < 1e20) PCHECK(columns(l) == 121, "{} columns: {}", columns(l), l);
  }
  Row w = row(L.back());
  PCHECK(w.iteration == it, "iteration {}", w.iteration);
  PCHECK(w.type == (type == slp::IterationType::NORMAL ? ' ' : type == slp::IterationType::SECOND_ORDER_CORRECTION ? 's' : 'r'), "type '{}'", w.type);
  PCHECK(std::abs(w.ms - us / 1e3) < 0.00101, "{} ms for {} us", w.ms, us);
  PCHECK(shown(w.error, error, 4) && shown(w.cost, cost, 4) && shown(w.infeas, infeas, 4), "{} {} {}", w.error, w.cost, w.infeas);
  PCHECK(shown(w.complem, complem, 2) && shown(w.mu, mu, 2) && shown(w.ppr, ppr, 2) && shown(w.pdu, pdu, 2), "{} {} {} {}", w.complem, w.mu, w.ppr, w.pdu);
  PCHECK(shown(w.apr, a, 2) && shown(w.adu, adu, 2), "{} {}", w.apr, w.adu);
  PCHECK(is_power(w.delta, delta) && is_power(w.gamma, gamma), "{} {}", w.delta, w.gamma);
  // repeated multiplication may round the quotient of the logarithms down
  if (factor == 0.5) PCHECK(w.back == back, "{} backtracks instead of {}", w.back, back);
  else PCHECK(std::abs(w.back - back) <= 1, "{} backtracks instead of {}", w.back, back);
}

PROPERTY("diagnostic_helpers", "the value is no power of ten and not zero, or the bar is partly filled") {
  // Powers of ten
  double v = std::pow(10.0, c.range(-300, 300)) * c.pick({1.0, 2.0, 9.5, 5.0});
  if (c.chance(1, 4)) v = std::pow(10.0, c.range(-3, 3));
  c.note("{}", v);
  auto s = slp::power_of_10(v);
  auto w = words(s);
  PCHECK(w.size() == 1, "'{}'", s);
  PCHECK(is_power(power(w[0]), v), "{} shown as '{}'", v, s);
  // an exact power of ten is shown as itself (what was computed by pow() may be off by rounding)
  double l = std::log10(v);
  if (l == std::round(l)) PCHECK(power(w[0]) == static_cast<int>(l), "{} shown as '{}'", v, s);
  PCHECK(words(slp::power_of_10(0.0)).at(0) == "0", "zero");
  // Bars
  double x = c.pick({c.real(0, 1), c.real(-0.5, 1.5), c.range(0, 72) / 72.0, 0.0, 1.0});
  c.note("{}", x);
  auto bar = [&]<int W>() {
    std::string h = slp::histogram<W>(x);
    static const char* strs[] = {"▏", "▎", "▍", "▌", "▋", "▊", "▉", "█"};
    int eighths = 0, cells = 0;
    bool ended = false;
    size_t a = 0;
    while (a < h.size()) {
      ++cells;
      if (h[a] == ' ') {
        ++a;
        ended = true;
        continue;
      }
      int k = -1;
      for (int j = 0; j < 8; ++j)
        if (h.compare(a, std::string_view{strs[j]}.size(), strs[j]) == 0) k = j;
      PCHECK(k >= 0 && !ended, "bar '{}'", h);
      eighths += k + 1;
      ended = k < 7;
      a += std::string_view{strs[k]}.size();
    }
    PCHECK(cells == W, "bar '{}' of {} cells", h, cells);
    double want = std::clamp(x, 0.0, 1.0) * W * 8;
    PCHECK(std::abs(eighths - want) < 1.0001, "bar '{}' for {}", h, x);
    if (x <= 0) PCHECK(eighths == 0, "bar '{}' for {}", h, x);
    if (x >= 1) PCHECK(eighths == 8 * W, "bar '{}' for {}", h, x);
  };
  bar.operator()<1>();
  bar.operator()<9>();
  bar.operator()<4>();
  // Milliseconds
  int64_t us = c.range(0, 100'000'000);
  PCHECK(std::abs(slp::to_ms(std::chrono::microseconds{us}) - us / 1e3) < 1e-6, "{} us are {} ms", us, slp::to_ms(std::chrono::microseconds{us}));
  double sec = us / 1e6;
  PCHECK(std::abs(slp::to_ms(std::chrono::duration<double>{sec}) - us / 1e3) < 0.00101, "{} s are {} ms", sec, slp::to_ms(std::chrono::duration<double>{sec}));
  c.nontrivial((l != std::round(l)) || (x > 0 && x < 1));
}

PROPERTY("diagnostic_lists", "constraints of both signs") {
  // The lists of violated constraints by themselves
  int n = c.range(0, 8);
  Vec v(n);
  bool pos = false, neg = false;
  for (int i = 0; i < n; ++i) v[i] = c.pick({0.0, 1.0, -1.0, 1e-7, -1e-7, 0.1, -1.0 / 3, 1e300, -2.5e-300});
  for (int i = 0; i < n; ++i) pos |= v[i] > 0, neg |= v[i] < 0;
  c.nontrivial(pos && neg);
  for (int i = 0; i < n; ++i) c.note("{}", v[i]);
  int kind = c.range(0, 2);
  auto out = captured([&] {
    if (kind == 0) slp::print_too_few_dofs_error(v);
    else if (kind == 1) slp::print_c_e_local_infeasibility_error(v);
    else slp::print_c_i_local_infeasibility_error(v);
  });
  PCHECK(has(out, kind == 2 ? "(cᵢ(x) ≥ 0)" : "(cₑ(x) = 0)"), "no heading: {}", out);
  std::vector<std::pair<int, double>> got, want;
  for (auto& s : lines(out)) {
    if (!s.starts_with("  ")) continue;
    auto w = words(s);
    PCHECK(w.size() == 4 && w[2] == (kind == 2 ? "≥" : "=") && w[3] == "0", "'{}'", s);
    size_t k = w[0].find('/');
    PCHECK(k != w[0].npos && w[0].back() == ':', "'{}'", s);
    PCHECK(number(w[0].substr(k + 1, w[0].size() - k - 2)) == n, "'{}' of {}", s, n);
    got.push_back({static_cast<int>(number(w[0].substr(0, k))), number(w[1])});
  }
  for (int i = 0; i < n; ++i)
    if (kind == 2 ? v[i] < 0 : v[i] != 0) want.push_back({i + 1, v[i]});
  PCHECK(got == want, "{} listed, {} violated: {}", got.size(), want.size(), out);
}
