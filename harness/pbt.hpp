// A small choice-sequence property-based testing engine.
//
// A case is a pure function of a sequence of bounded integer draws. Random mode
// draws them from a seeded generator, replay mode reads them from a file, and
// the shrinker edits the sequence (delete blocks, zero, minimise values) while
// the case keeps failing. Every case runs in a forked child, so a crash, an
// assertion, a sanitizer report or a runaway loop is an ordinary failing case.
#pragma once

#include <fcntl.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <format>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

/// splitmix64 / xoshiro-free tiny generator
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s{seed} {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

inline constexpr size_t MAX_CHOICES = 1 << 16;
inline constexpr size_t MAX_TEXT = 1 << 14;

/// Shared with the child process
struct Shared {
  volatile uint64_t num_choices;
  uint64_t choices[MAX_CHOICES];
  uint64_t bounds[MAX_CHOICES];
  char msg[MAX_TEXT];    // failure message
  char desc[MAX_TEXT];   // description of the case
  volatile int state;    // 0 running, 1 pass, 2 fail, 3 discard
  volatile int in_case;
  volatile uint64_t index;
  // statistics of one chunk
  volatile uint64_t done, nontrivial, discarded;
  char labels[1 << 14];  // "label\n" list with counts appended at chunk end
  char samples[8][2048];
  volatile int num_samples;
  volatile uint64_t num_hashes;
  uint64_t hashes[1 << 14];
};

inline Shared* g_shared = nullptr;

class Case {
 public:
  Case(uint64_t seed) : m_rng{seed} {}                        // NOLINT
  explicit Case(const std::vector<uint64_t>& r) : m_rng{0}, m_replay{&r} {}
  /// A generator that is not recorded, for use on other threads. It is a pure function of a recorded draw.
  struct Private {
    uint64_t seed;
  };
  explicit Case(Private p) : m_rng{p.seed}, m_private{true} {}
  /// A generator that makes the draws this one is going to make, without recording them
  Case twin() const {
    Case t = *this;
    t.m_private = true;
    return t;
  }

  /// Uniform integer in [0, n)
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (m_replay) {
      v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
      if (v >= n) v %= n;
    } else {
      v = static_cast<uint64_t>((static_cast<unsigned __int128>(m_rng.next()) * n) >> 64);
    }
    ++m_pos;
    if (g_shared && !m_private && g_shared->num_choices < MAX_CHOICES) {
      g_shared->choices[g_shared->num_choices] = v;
      g_shared->bounds[g_shared->num_choices] = n;
      g_shared->num_choices = g_shared->num_choices + 1;
    }
    m_hash = (m_hash ^ v) * 0x100000001b3ull;
    m_hash ^= m_hash >> 29;
    return v;
  }
  /// Uniform integer in [lo, hi]
  int range(int lo, int hi) {
    return lo + static_cast<int>(draw(static_cast<uint64_t>(static_cast<int64_t>(hi) - lo) + 1));
  }
  bool chance(int num, int den) {
    // 0 (what shrinking tends to) is "no"
    return static_cast<int>(draw(den)) >= den - num;
  }
  bool coin() { return draw(2) == 1; }
  /// Makes one case in so many a large one, which affects size()
  bool scale_up(int one_in) { return m_large = chance(1, one_in); }
  bool large() const { return m_large; }
  /// A size in [lo, hi] or, in a large case, up to huge
  int size(int lo, int hi, int huge) {
    if (!m_large || chance(1, 4)) return range(lo, hi);
    int bits = 0;
    while (bits < 24 && ((hi + 1) << (bits + 1)) <= huge) ++bits;
    int b = range(0, bits);
    return std::min(huge, range((hi + 1) << b, ((hi + 1) << b) * 2 - 1));
  }
  template <typename C>
  const auto& pick(const C& c) {
    return *(std::begin(c) + draw(std::size(c)));
  }
  template <typename T>
  T pick(std::initializer_list<T> c) {
    return *(c.begin() + draw(c.size()));
  }
  /// Index with the given weights
  int weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w) total += x;
    int v = static_cast<int>(draw(total));
    int i = 0;
    for (int x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  /// Double in [lo, hi] with 1/1024 granularity (exact in binary)
  double grid(double lo, double hi) {
    int64_t a = static_cast<int64_t>(std::ceil(lo * 1024)), b = static_cast<int64_t>(std::floor(hi * 1024));
    if (b <= a) return lo;
    // order by closeness to zero (or to lo) so that shrinking simplifies
    uint64_t span = static_cast<uint64_t>(b - a) + 1;
    uint64_t k = draw(span);
    if (a <= 0 && b >= 0) {
      uint64_t m = static_cast<uint64_t>(std::min(-a, b));
      if (k <= 2 * m) {
        int64_t mag = static_cast<int64_t>((k + 1) / 2);
        return ((k & 1) ? mag : -mag) / 1024.0 + 0.0;
      }
      int64_t mag = static_cast<int64_t>(k - m);
      return (b > -a ? mag : -mag) / 1024.0;
    }
    if (a > 0) return (a + static_cast<int64_t>(k)) / 1024.0;
    return (b - static_cast<int64_t>(k)) / 1024.0;
  }
  /// Double with full mantissa in [lo, hi]
  double real(double lo, double hi) {
    uint64_t k = draw(uint64_t{1} << 53);
    return lo + (hi - lo) * (static_cast<double>(k) / 9007199254740992.0);
  }
  /// A "human" number: small integers, halves, or anything in [-m, m]
  double num(double m = 10) {
    switch (weighted({4, 3, 3})) {
      case 0:
        return std::clamp<double>(range(-4, 4), -m, m);
      case 1:
        return std::clamp<double>(range(-20, 20) / 4.0, -m, m);
      default:
        return real(-m, m);
    }
  }

  template <typename... A>
  void note(std::format_string<A...> f, A&&... a) {
    std::string s = std::format(f, std::forward<A>(a)...);
    if (g_shared && !m_private) {
      size_t len = m_desc_len;
      size_t n = std::min(s.size(), MAX_TEXT - 2 - std::min(len, MAX_TEXT - 2));
      memcpy(g_shared->desc + len, s.data(), n);
      m_desc_len += n;
      if (m_desc_len < MAX_TEXT - 2) g_shared->desc[m_desc_len++] = '\n';
      g_shared->desc[m_desc_len] = 0;
    }
  }
  void nontrivial(bool b = true) { m_nontrivial |= b; }
  bool is_nontrivial() const { return m_nontrivial; }
  void label(const std::string& l) { m_labels.insert(l); }
  const std::set<std::string>& labels() const { return m_labels; }
  uint64_t hash() const { return m_hash; }

 private:
  Rng m_rng;
  const std::vector<uint64_t>* m_replay = nullptr;
  bool m_private = false;
  bool m_large = false;
  size_t m_pos = 0;
  size_t m_desc_len = 0;
  uint64_t m_hash = 0xcbf29ce484222325ull;
  bool m_nontrivial = false;
  std::set<std::string> m_labels;
};

#define PCHECK(cond, ...)                                                    \
  do {                                                                       \
    if (!(cond)) {                                                           \
      throw ::pbt::Fail{std::format("{}:{}: {} -- {}", __FILE__, __LINE__,   \
                                    #cond, std::format(__VA_ARGS__))};       \
    }                                                                        \
  } while (0)

struct Prop {
  std::string name;
  std::string rule;  // what counts as non-trivial
  std::function<void(Case&)> fn;
  int cpu_limit_s = 60;
};

inline std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}

struct Reg {
  Reg(std::string name, std::string rule, std::function<void(Case&)> fn, int cpu = 60) {
    registry().push_back({std::move(name), std::move(rule), std::move(fn), cpu});
  }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(name, rule)                                               \
  static void PBT_CAT(prop_, __LINE__)(::pbt::Case & c);                   \
  static ::pbt::Reg PBT_CAT(reg_, __LINE__){name, rule,                    \
                                            PBT_CAT(prop_, __LINE__)};     \
  static void PBT_CAT(prop_, __LINE__)([[maybe_unused]] ::pbt::Case & c)

int main_impl(int argc, char** argv);

}  // namespace pbt
