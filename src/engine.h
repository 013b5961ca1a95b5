// Property-based testing engine: every random choice of a case comes from one
// recorded choice sequence, so that a case is a pure function of (seed, index),
// failures shrink generically (delete / zero / lower choices) and replay from a
// file.  Cases run in forked workers so that crashes and hangs of the code under
// test are observations rather than the end of the check.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Src {
  std::vector<uint32_t> ch; // recorded / replayed choices
  size_t pos = 0;
  bool replay = false;
  uint64_t s = 0;
  uint32_t *mirror = nullptr; // shared copy of the choices, survives a crash

  explicit Src(uint64_t seed) : s(seed) {}
  explicit Src(const std::vector<uint32_t> &c) : ch(c), replay(true) {}

  uint64_t next64() {
    // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }

  // uniform in [0, n); 0 is always the simplest alternative
  uint32_t below(uint32_t n) {
    if (n <= 1)
      return 0;
    if (replay) {
      if (pos < ch.size())
        return ch[pos++] % n;
      ++pos;
      return 0;
    }
    if (ch.size() >= 60000) {
      ++pos;
      return 0;
    }
    const uint32_t v = uint32_t(next64() % n);
    ch.push_back(v);
    if (mirror) {
      mirror[ch.size()] = v;
      mirror[0] = uint32_t(ch.size());
    }
    ++pos;
    return v;
  }
  uint32_t bits32() {
    const uint32_t lo = below(65536);
    return (below(65536) << 16) | lo;
  }
  int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
  // true with probability num/den; shrinks towards false
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  // index into weights; shrinks towards the first
  int weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w)
      total += x;
    int v = int(below(uint32_t(total)));
    int i = 0;
    for (int x : w) {
      if (v < x)
        return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(uint32_t(v.size()))];
  }
};

// thrown by a property when the oracle disagrees
struct Fail {
  std::string msg;
};
// thrown to abandon a case that is outside the property's domain
struct Discard {
  const char *why;
};

struct Case {
  bool nontrivial = false;
  std::string text;                  // the generated case, written out
  std::vector<std::string> labels;   // classification
  void label(const std::string &l) { labels.push_back(l); }
  // set the text before calling into the code under test, so that it is known
  // even if that call never returns
  void show(const std::string &t);
};

typedef std::function<void(Src &, Case &)> prop_fn;

struct Spec {
  const char *id;
  const char *rule; // how cases are made and what makes one non-trivial
  uint64_t quick_cases;
  uint64_t thorough_cases;
  prop_fn fn;
  std::vector<std::string> assumptions;
  // fixed inputs that are recorded, unrepaired findings: (description, fn)
  std::vector<std::pair<std::string, std::function<void()>>> known;
  // corner cases run before the generated ones: each is a fixed choice list
  std::function<void()> setup;
};

void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_str(const std::string &s);

// private scratch directory of this process tree, removed at exit
const std::string &scratch();

// entry point used by each check's main()
int run(int argc, char **argv, const Spec &spec);

} // namespace pbt
