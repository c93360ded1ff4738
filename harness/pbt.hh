// A small property-based testing engine with integrated (choice-sequence)
// shrinking, crash/hang isolation, replay files and coverage accounting.
//
// A property is a function void(Src&). It draws every random decision from the
// Src (recorded as a sequence of bounded integers whose simplest value is 0), so
// any failure can be replayed and shrunk by editing the recorded sequence, with
// no per-type shrinkers.
#pragma once

#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure {
  std::string message;
};
struct Discard {};

// splitmix64
inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

class Src {
 public:
  // Random mode
  explicit Src(uint64_t seed) : state_{seed}, random_{true} {}
  // Replay mode
  explicit Src(std::vector<uint64_t> choices)
      : replay_{std::move(choices)}, random_{false} {}

  // A size: usually below the first bound, now and then below a much larger one.
  size_t count(size_t usual, size_t rare) {
    return below(below(32) == 31 ? rare : usual);
  }

  // Uniform in [0, n); n == 0 means the full 64 bit range.
  uint64_t below(uint64_t n) {
    uint64_t v = 0;
    if (random_) {
      v = next();
      if (n != 0) {
        v = static_cast<uint64_t>(
            (static_cast<unsigned __int128>(v) * n) >> 64U);
      }
    } else {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      if (n != 0 && v >= n) {
        v = n - 1;
      }
    }
    ++pos_;
    choices_.push_back(v);
    if (live_ != nullptr && live_[0] + 1 < live_cap_) {
      live_[1 + live_[0]] = v;
      ++live_[0];
    }
    return v;
  }

  uint64_t bits() { return below(0); }

  // Inclusive integer range; the simplest value is lo.
  int64_t range(int64_t lo, int64_t hi) {
    const uint64_t span =
        static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo) +
        below(span == std::numeric_limits<uint64_t>::max() ? 0 : span + 1));
  }

  // True with probability num/den; false is simplest
  bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }

  // Uniform real in [0, 1)
  double unit() {
    return static_cast<double>(below(uint64_t{1} << 53U)) * 0x1p-53;
  }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // Uniform in (-m, m) with 0 simplest
  double symmetric(double m) {
    const double v = m * unit();
    return coin() ? -v : v;
  }
  // Standard normal
  double normal() {
    const double u = 1.0 - unit();
    const double v = unit();
    return std::sqrt(-2.0 * std::log(u)) * std::cos(2.0 * M_PI * v);
  }

  template <typename T>
  const T &pick(const std::vector<T> &options) {
    return options[below(options.size())];
  }

  // Weighted alternative. Returns index. Index 0 is the simplest.
  size_t weighted(std::initializer_list<unsigned> weights) {
    uint64_t total = 0;
    for (auto w : weights) {
      total += w;
    }
    uint64_t v = below(total);
    size_t i = 0;
    for (auto w : weights) {
      if (v < w) {
        return i;
      }
      v -= w;
      ++i;
    }
    return 0;
  }

  std::string text(size_t max_len, bool any_byte = false) {
    std::string out;
    const size_t len = below(max_len + 1);
    for (size_t i = 0; i < len; ++i) {
      out += any_byte ? static_cast<char>(below(256))
                      : static_cast<char>('a' + below(26));
    }
    return out;
  }

  // Mark this case as non-trivial by the property's rule.
  void nontrivial() { nontrivial_ = true; }
  bool is_nontrivial() const { return nontrivial_; }
  // Count a labelled class of behaviour
  void label(const std::string &l) { labels_.push_back(l); }
  const std::vector<std::string> &labels() const { return labels_; }

  // Describe the case (only kept when describing is on)
  bool describing() const { return describing_; }
  void set_describing(bool d) { describing_ = d; }
  template <typename... Args>
  void note(Args &&...args) {
    if (describing_) {
      std::ostringstream ss;
      ss.precision(17);
      (ss << ... << args);
      notes_ += ss.str();
      notes_ += '\n';
    }
  }
  const std::string &notes() const { return notes_; }
  const std::vector<uint64_t> &choices() const { return choices_; }

  // Mirror choices into shared memory (so a crashed case can be recovered).
  void set_live(uint64_t *live, size_t cap) {
    live_ = live;
    live_cap_ = cap;
    live_[0] = 0;
  }

  // Number of primitive comparisons made by this case
  uint64_t checks = 0;

 private:
  uint64_t next() {
    state_ += 0x9E3779B97F4A7C15ULL;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }

  uint64_t state_ = 0;
  std::vector<uint64_t> replay_;
  bool random_;
  size_t pos_ = 0;
  std::vector<uint64_t> choices_;
  uint64_t *live_ = nullptr;
  size_t live_cap_ = 0;
  bool nontrivial_ = false;
  bool describing_ = false;
  std::string notes_;
  std::vector<std::string> labels_;
};

struct PropertyFn {
  std::string name;
  std::function<void(Src &)> fn;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  bool racy = false;  // An observed failure is reported even if not replayable.
  double hang_s = 60;  // A case that takes longer than this is a hang.
};

// To be provided by each property program.
struct Program {
  std::string property;            // e.g. "C01"
  std::string rule;                // How cases are made; non-triviality rule.
  std::vector<PropertyFn> fns;
  std::vector<std::string> assumptions;
};
Program program();

template <typename... Args>
[[noreturn]] void fail(Args &&...args) {
  std::ostringstream ss;
  ss.precision(17);
  (ss << ... << args);
  throw Failure{ss.str()};
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// Check with a message built from the remaining args
#define PBT_CHECK(s, cond, ...)                                         \
  do {                                                                     \
    ++(s).checks;                                                          \
    if (!(cond)) {                                                         \
      ::pbt::fail(__FILE__ ":" PBT_STR(__LINE__) ": " #cond "; ", __VA_ARGS__); \
    }                                                                      \
  } while (0)

// Run f and report whether it threw an exception of type E. Anything else
// thrown propagates (and so counts as a failure of the case).
template <typename E, typename F>
bool throws(F &&f) {
  try {
    f();
  } catch (const E &) {
    return true;
  }
  return false;
}

}  // namespace pbt
