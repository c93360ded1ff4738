// C14: checked integer arithmetic.
// @quick_scale: 10
#include "pbt.hh"
#include "resim/assert/assert.hh"
#include "resim/math/safe_integer_utils.hh"

namespace {
using pbt::Src;
using resim::AssertException;
using W = __int128;
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();

int64_t integer(Src &s) {
  switch (s.weighted({2, 3, 3, 3, 2, 2})) {
    case 0:
      return s.range(-3, 3);
    case 1:
      return MAX - s.range(0, 4);
    case 2:
      return MIN + s.range(0, 4);
    case 3: {
      const int64_t p = int64_t{1} << s.below(63);
      const int64_t v = p + s.range(-2, 2);
      return s.coin() ? -v : v;
    }
    case 4:
      return static_cast<int64_t>(s.bits());
    default:
      return s.range(-1'000'000, 1'000'000);
  }
}

std::string str(W v) {
  if (v == 0) return "0";
  const bool neg = v < 0;
  std::string out;
  while (v != 0) {
    int d = static_cast<int>(v % 10);
    out.insert(out.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
    v /= 10;
  }
  return neg ? "-" + out : out;
}

template <typename F>
void verify(Src &s, const char *what, W want, F &&f) {
  const bool fits = want >= MIN && want <= MAX;
  int64_t got = 0;
  std::string message;
  bool threw = false;
  try {
    got = f();
  } catch (const AssertException &e) {
    threw = true;
    message = e.what();
  }
  PBT_CHECK(s, threw == !fits, what, " = ", str(want), fits ? " fits but was refused" : " does not fit but was accepted", "; got ", got);
  if (fits) {
    PBT_CHECK(s, got == static_cast<int64_t>(want), what, " = ", str(want), " but got ", got);
  } else {
    s.label(want > 0 ? "overflow" : "underflow");
  }
}

void ops(Src &s) {
  const int64_t a = integer(s);
  int64_t b = integer(s);
  if (s.chance(1, 3)) {
    // Right at the edge
    const W edge = s.coin() ? W{MAX} : W{MIN};
    const W near = edge - a + s.range(-2, 2);
    const W near2 = W{a} - edge + s.range(-2, 2);
    const W v = s.coin() ? near : near2;
    if (v >= MIN && v <= MAX) b = static_cast<int64_t>(v);
  }
  s.note("a=", a, " b=", b);
  const W sum = W{a} + b;
  const W diff = W{a} - b;
  const auto edge = [](W v) { return v > W{MAX} - 8 || v < W{MIN} + 8; };
  if (edge(sum) || edge(diff)) s.nontrivial();
  verify(s, "sum", sum, [&] { return resim::math::safe_sum(a, b); });
  verify(s, "sum", sum, [&] { return resim::math::safe_sum(b, a); });
  verify(s, "difference", diff, [&] { return resim::math::safe_difference(a, b); });
  verify(s, "difference", -diff, [&] { return resim::math::safe_difference(b, a); });
  verify(s, "absolute value", a < 0 ? -W{a} : W{a}, [&] { return resim::math::safe_abs(a); });
  verify(s, "absolute value", b < 0 ? -W{b} : W{b}, [&] { return resim::math::safe_abs(b); });
}

// Every pair of integers next to a boundary
void boundaries(Src &s) {
  std::vector<int64_t> v;
  for (int64_t i = -3; i <= 3; ++i) v.push_back(i);
  for (int64_t i = 0; i <= 3; ++i) {
    v.push_back(MAX - i);
    v.push_back(MIN + i);
    v.push_back(MAX / 2 + i);
    v.push_back(MIN / 2 - i);
  }
  const int64_t a = v[s.below(v.size())];
  for (const int64_t b : v) {
    s.nontrivial();
    s.note("a=", a, " b=", b);
    verify(s, "sum", W{a} + b, [&] { return resim::math::safe_sum(a, b); });
    verify(s, "difference", W{a} - b, [&] { return resim::math::safe_difference(a, b); });
  }
  verify(s, "absolute value", a < 0 ? -W{a} : W{a}, [&] { return resim::math::safe_abs(a); });
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C14",
      "pairs of 64-bit integers concentrated at the limits, at powers of two and at pairs whose exact sum or difference is "
      "within two of a limit; compared with 128-bit arithmetic, in a build where signed overflow traps; non-trivial: the "
      "exact sum or difference is within 8 of the representable range or outside it",
      {
          {"ops", ops, 400000, 20000000},
          {"boundaries", boundaries, 5000, 50000},
      },
      {}};
}
