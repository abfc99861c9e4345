// Driver of the engine in pbt.hpp. Not instrumented for coverage.
#include "pbt.hpp"

#include <fstream>
#include <iostream>
#include <sstream>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
#endif

#if defined(__SANITIZE_THREAD__)
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:abort_on_error=0:handle_abort=0";
}
#endif

// Coverage feedback (only when the code under test is built with
// -fsanitize-coverage=trace-pc)
static uint8_t* g_cov = nullptr;
static constexpr size_t COV_SIZE = 1 << 16;
static thread_local uintptr_t g_prev = 0;
extern "C" __attribute__((no_sanitize("address", "undefined"))) void
__sanitizer_cov_trace_pc() {
  if (!g_cov) return;
  uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  uintptr_t h = (pc ^ (pc >> 16)) * 0x9e3779b1u;
  size_t i = ((h ^ g_prev) >> 3) & (COV_SIZE - 1);
  g_prev = h >> 1;
  if (g_cov[i] < 255) ++g_cov[i];
}

namespace pbt {

static void on_alarm(int) {
  const char m[] = "CPU limit of one case exceeded (does not terminate?)";
  memcpy(g_shared->msg, m, sizeof(m));
  g_shared->state = 4;
  _exit(97);
}

static void set_timer(int s) {
  itimerval t{};
  t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static void begin_case() {
  g_shared->num_choices = 0;
  g_shared->msg[0] = 0;
  g_shared->desc[0] = 0;
  g_shared->state = 0;
  g_shared->in_case = 1;
}

/// Runs one case in this process, returns state
static int run_case(const Prop& p, Case& c) {
  begin_case();
  set_timer(p.cpu_limit_s);
  try {
    p.fn(c);
    g_shared->state = 1;
  } catch (const Discard&) {
    g_shared->state = 3;
  } catch (const Fail& f) {
    strncpy(g_shared->msg, f.msg.c_str(), MAX_TEXT - 1);
    g_shared->state = 2;
  } catch (const std::exception& e) {
    strncpy(g_shared->msg, (std::string{"unexpected exception: "} + e.what()).c_str(), MAX_TEXT - 1);
    g_shared->state = 2;
  }
  set_timer(0);
  g_shared->in_case = 0;
  return g_shared->state;
}

static void child_setup() {
  signal(SIGPROF, on_alarm);
  // Keep the library's output out of the way; errors of a crash are kept in a file
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  const char* errf = getenv("PBT_STDERR");
  int e = errf ? open(errf, O_WRONLY | O_CREAT | O_TRUNC, 0644) : fd;
  dup2(e, 2);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

/// Runs one replay in a fork. Returns true if it fails; fills msg/desc/choices.
static bool fails(const Prop& p, const std::vector<uint64_t>& ch, std::string* msg, std::string* desc,
                  std::vector<uint64_t>* used) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    Case c{ch};
    int st = run_case(p, c);
    _exit(st == 2 ? 1 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  bool crashed = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1);
  bool failed = crashed || (WIFEXITED(st) && WEXITSTATUS(st) == 1);
  if (failed) {
    if (msg) {
      *msg = g_shared->msg;
      if (crashed && msg->empty())
        *msg = WIFSIGNALED(st) ? std::format("crashed with signal {}", WTERMSIG(st))
                               : std::format("exited with status {}", WEXITSTATUS(st));
    }
    if (desc) *desc = g_shared->desc;
    if (used) used->assign(g_shared->choices, g_shared->choices + g_shared->num_choices);
  }
  return failed;
}

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, int budget, std::string& msg,
                                    std::string& desc) {
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto out_of_time = [&] {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec - t0.tv_sec > 60;
  };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (budget-- <= 0 || out_of_time()) return false;
    std::string m, d;
    std::vector<uint64_t> u;
    if (!fails(p, cand, &m, &d, &u)) return false;
    // Canonicalise to what was really used; must not grow
    if (u.size() < best.size() || (u.size() == best.size() && u < best) || cand.size() < best.size() ||
        (cand.size() == best.size() && cand < best)) {
      if (u.size() <= cand.size()) best = u; else best = cand;
      msg = m;
      desc = d;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0 && !out_of_time()) {
    progress = false;
    for (size_t blk : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      if (blk > best.size()) continue;
      for (size_t i = best.size() - blk + 1; i-- > 0 && budget > 0;) {
        if (i + blk > best.size()) continue;
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + blk);
        if (attempt(cand)) progress = true;
      }
    }
    for (size_t blk : {8u, 4u, 2u, 1u}) {
      for (size_t i = 0; i + blk <= best.size() && budget > 0; ++i) {
        auto cand = best;
        bool any = false;
        for (size_t j = i; j < i + blk; ++j) {
          any |= cand[j] != 0;
          cand[j] = 0;
        }
        if (any && attempt(cand)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && budget > 0; ++i) {
      uint64_t lo = 0, hi = best[i];
      for (int k = 0; k < 12 && lo < hi && i < best.size(); ++k) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto cand = best;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          if (i >= best.size()) break;
          hi = best[i];
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

static std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20) {
      o += std::format("\\u{:04x}", ch);
    } else {
      o += ch;
    }
  }
  return o;
}

/// The k-th random case of a run
static Case nth_case(uint64_t seed, uint64_t k) {
  Rng mix{seed * 0x9e3779b97f4a7c15ull + k * 0xd1342543de82ef95ull};
  mix.next();
  return Case{mix.next()};
}

/// Runs cases [from, to] of a run in one process. Returns true if one fails.
static bool batch_fails(const Prop& p, uint64_t seed, uint64_t from, uint64_t to, std::string* msg, std::string* desc) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    for (uint64_t k = from; k <= to; ++k) {
      Case c = nth_case(seed, k);
      if (run_case(p, c) == 2) _exit(1);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (failed) {
    *msg = g_shared->msg;
    if (msg->empty()) *msg = WIFSIGNALED(st) ? std::format("crashed with signal {}", WTERMSIG(st)) : "exited";
    *desc = g_shared->desc;
  }
  return failed;
}

struct Stats {
  uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  uint64_t corpus = 0, cov = 0;
};

int main_impl(int argc, char** argv) {
  std::map<std::string, std::string> opt;
  std::string cmd = argc > 1 ? argv[1] : "list";
  for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  if (cmd == "list") {
    for (auto& p : registry()) std::cout << p.name << "\t" << p.rule << "\n";
    return 0;
  }
  g_shared = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const Prop* p = nullptr;
  for (auto& q : registry())
    if (q.name == opt["--prop"]) p = &q;
  if (!p) {
    std::cerr << "no such property: " << opt["--prop"] << "\n";
    return 3;
  }
  if (cmd == "replay") {
    std::ifstream f{opt["--file"]};
    std::vector<uint64_t> ch;
    uint64_t bs = 0, bf = 0, bt = 0;
    bool is_batch = false;
    std::string line;
    while (std::getline(f, line)) {
      if (line.starts_with("choices:")) {
        std::istringstream is{line.substr(8)};
        uint64_t v;
        while (is >> v) ch.push_back(v);
      } else if (line.starts_with("batch:")) {
        std::istringstream is{line.substr(6)};
        is >> bs >> bf >> bt;
        is_batch = true;
      }
    }
    std::string msg, desc;
    bool bad = is_batch ? batch_fails(*p, bs, bf, bt, &msg, &desc) : fails(*p, ch, &msg, &desc, nullptr);
    if (bad) {
      std::cout << "FAIL " << msg << "\n" << desc << "\n";
      return 1;
    }
    std::cout << "PASS\n" << g_shared->desc << "\n";
    return 0;
  }

  uint64_t seed = std::stoull(opt["--seed"]);
  uint64_t cases = std::stoull(opt["--cases"]);
  bool guided = cmd == "fuzz";
  Stats st;
  std::vector<uint64_t> failing;
  std::string msg;
  bool failed = false;
  uint64_t batch_from = 0, batch_to = 0;
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  double budget_s = opt.count("--budget") ? std::stod(opt["--budget"]) : 1e9;
  auto elapsed = [&] {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec);
  };

  if (guided) {
    g_cov = static_cast<uint8_t*>(
        mmap(nullptr, COV_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    static uint8_t virgin[COV_SIZE];
    // Corpus lives in shared memory owned by the parent; children run batches
    std::vector<std::vector<uint64_t>> corpus;
    Rng rng{seed * 7919 + 13};
    while (st.evaluations + st.discarded < cases && !failed && elapsed() < budget_s) {
      // Build the next input: fresh random, or a mutation of a corpus entry
      std::vector<uint64_t> in;
      bool fresh = corpus.empty() || rng.next() % 4 == 0;
      uint64_t fresh_seed = rng.next();
      if (!fresh) {
        in = corpus[rng.next() % corpus.size()];
        int n = 1 + rng.next() % 4;
        for (int k = 0; k < n && !in.empty(); ++k) {
          switch (rng.next() % 5) {
            case 0:
              in[rng.next() % in.size()] = rng.next() % 8;
              break;
            case 1:
              in[rng.next() % in.size()] = rng.next() >> 11;
              break;
            case 2: {
              size_t i = rng.next() % in.size(), l = 1 + rng.next() % 8;
              in.erase(in.begin() + i, in.begin() + std::min(in.size(), i + l));
              break;
            }
            case 3: {
              auto& o = corpus[rng.next() % corpus.size()];
              if (o.empty()) break;
              size_t i = rng.next() % in.size(), j = rng.next() % o.size();
              in.resize(i);
              in.insert(in.end(), o.begin() + j, o.end());
              break;
            }
            default: {
              size_t i = rng.next() % in.size(), l = std::min<size_t>(1 + rng.next() % 8, in.size() - i);
              std::vector<uint64_t> blk(in.begin() + i, in.begin() + i + l);
              in.insert(in.begin() + i, blk.begin(), blk.end());
            }
          }
        }
        if (in.size() > 4000) in.resize(4000);
      }
      memset(g_cov, 0, COV_SIZE);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        child_setup();
        if (fresh) {
          Case c{fresh_seed};
          run_case(*p, c);
          g_shared->nontrivial = c.is_nontrivial();
          g_shared->hashes[0] = c.hash();
        } else {
          Case c{in};
          run_case(*p, c);
          g_shared->nontrivial = c.is_nontrivial();
          g_shared->hashes[0] = c.hash();
        }
        _exit(g_shared->state == 2 ? 1 : 0);
      }
      int ws = 0;
      waitpid(pid, &ws, 0);
      if (WIFSIGNALED(ws) || (WIFEXITED(ws) && WEXITSTATUS(ws) != 0)) {
        failing.assign(g_shared->choices, g_shared->choices + g_shared->num_choices);
        failed = true;
        break;
      }
      if (g_shared->state == 3) {
        ++st.discarded;
      } else {
        ++st.evaluations;
        if (g_shared->nontrivial) {
          ++st.nontrivial;
          st.distinct.insert(g_shared->hashes[0]);
          if (st.samples.size() < 3) st.samples.emplace_back(g_shared->desc);
        }
      }
      bool interesting = false;
      for (size_t i = 0; i < COV_SIZE; ++i) {
        if (!g_cov[i]) continue;
        int b = g_cov[i] < 4 ? g_cov[i] : g_cov[i] < 8 ? 4 : g_cov[i] < 32 ? 5 : g_cov[i] < 128 ? 6 : 7;
        uint8_t bit = 1 << b;
        if (!(virgin[i] & bit)) {
          virgin[i] |= bit;
          interesting = true;
        }
      }
      if (interesting && corpus.size() < 5000)
        corpus.emplace_back(g_shared->choices, g_shared->choices + g_shared->num_choices);
    }
    st.corpus = corpus.size();
    for (size_t i = 0; i < COV_SIZE; ++i) st.cov += virgin[i] != 0;
  } else {
    uint64_t i = 0;
    while (i < cases && !failed && elapsed() < budget_s) {
      uint64_t chunk = std::min<uint64_t>(cases - i, 512);
      g_shared->done = 0;
      g_shared->nontrivial = 0;
      g_shared->discarded = 0;
      g_shared->labels[0] = 0;
      g_shared->num_samples = 0;
      g_shared->num_hashes = 0;
      g_shared->in_case = 0;
      bool want_samples = st.samples.size() < 6;
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        child_setup();
        std::map<std::string, uint64_t> labels;
        for (uint64_t k = 0; k < chunk; ++k) {
          g_shared->index = i + k;
          Case c = nth_case(seed, i + k);
          int s = run_case(*p, c);
          if (s == 2) _exit(1);
          if (s == 3) {
            g_shared->discarded = g_shared->discarded + 1;
          } else {
            for (auto& l : c.labels()) ++labels[l];
            g_shared->done = g_shared->done + 1;
            if (c.is_nontrivial()) {
              g_shared->nontrivial = g_shared->nontrivial + 1;
              g_shared->hashes[g_shared->num_hashes] = c.hash();
              g_shared->num_hashes = g_shared->num_hashes + 1;
              if (want_samples && g_shared->num_samples < 3) {
                strncpy(g_shared->samples[g_shared->num_samples], g_shared->desc, 2047);
                g_shared->samples[g_shared->num_samples][2047] = 0;
                g_shared->num_samples = g_shared->num_samples + 1;
              }
            }
          }
        }
        std::string ls;
        for (auto& [l, n] : labels) ls += std::format("{}\t{}\n", n, l);
        strncpy(g_shared->labels, ls.c_str(), sizeof(g_shared->labels) - 1);
        _exit(0);
      }
      int ws = 0;
      waitpid(pid, &ws, 0);
      st.evaluations += g_shared->done;
      st.discarded += g_shared->discarded;
      st.nontrivial += g_shared->nontrivial;
      for (uint64_t k = 0; k < g_shared->num_hashes; ++k) st.distinct.insert(g_shared->hashes[k]);
      for (int k = 0; k < g_shared->num_samples; ++k) st.samples.emplace_back(g_shared->samples[k]);
      std::istringstream ls{g_shared->labels};
      std::string line;
      while (std::getline(ls, line)) {
        auto t = line.find('\t');
        if (t != std::string::npos) st.labels[line.substr(t + 1)] += std::stoull(line.substr(0, t));
      }
      if (WIFSIGNALED(ws) || (WIFEXITED(ws) && WEXITSTATUS(ws) != 0)) {
        failing.assign(g_shared->choices, g_shared->choices + g_shared->num_choices);
        failed = true;
        ++st.evaluations;
        batch_from = i;
        batch_to = g_shared->index;
      }
      i += chunk;
    }
  }

  std::string desc;
  bool reproduced = false, batch = false;
  if (failed) {
    reproduced = fails(*p, failing, &msg, &desc, nullptr);
    if (reproduced) {
      failing = shrink(*p, failing, std::stoi(opt.count("--shrink") ? opt["--shrink"] : "600"), msg, desc);
      // 3 replays
      for (int k = 0; k < 3; ++k) reproduced &= fails(*p, failing, &msg, &desc, nullptr);
    } else if (!guided) {
      // Needs what earlier cases of the process left behind: keep the history
      reproduced = batch = true;
      for (int k = 0; k < 3; ++k) reproduced &= batch_fails(*p, seed, batch_from, batch_to, &msg, &desc);
    }
    if (opt.count("--replay-out")) {
      std::ofstream f{opt["--replay-out"]};
      f << "prop: " << p->name << "\nmessage: " << msg << "\nseed: " << seed << "\ncase:\n" << desc << "\n";
      if (batch) f << "batch: " << seed << " " << batch_from << " " << batch_to << "\n";
      f << "choices:";
      for (auto v : failing) f << " " << v;
      f << "\n";
    }
  }

  std::ofstream o{opt["--out"]};
  o << "{\"prop\": \"" << p->name << "\", \"rule\": \"" << json_escape(p->rule) << "\", \"evaluations\": " << st.evaluations
    << ", \"discarded\": " << st.discarded << ", \"nontrivial\": " << st.nontrivial
    << ", \"distinct_nontrivial\": " << st.distinct.size() << ", \"corpus\": " << st.corpus << ", \"cov\": " << st.cov
    << ", \"failed\": " << (failed ? "true" : "false") << ", \"reproduced\": " << (reproduced ? "true" : "false")
    << ", \"message\": \"" << json_escape(msg) << "\", \"desc\": \"" << json_escape(desc) << "\", \"labels\": {";
  bool first = true;
  for (auto& [l, n] : st.labels) {
    o << (first ? "" : ", ") << "\"" << json_escape(l) << "\": " << n;
    first = false;
  }
  o << "}, \"samples\": [";
  for (size_t k = 0; k < st.samples.size() && k < 3; ++k)
    o << (k ? ", " : "") << "\"" << json_escape(st.samples[k]) << "\"";
  o << "]}\n";
  return 0;
}

}  // namespace pbt

int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
