// C15: conversions of durations.
// @quick_scale: 10
#include "pbt.hh"
#include "resim/time/timestamp.hh"

namespace {
using pbt::Src;
using namespace resim::time;
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();

int64_t nanos(Src &s, int64_t limit) {
  switch (s.weighted({2, 2, 2, 2, 1, 2})) {
    case 0:
      return s.range(-5, 5);
    case 1: {  // Around a whole number of seconds
      const int64_t secs = s.range(0, limit / 1'000'000'001);
      const int64_t v = secs * 1'000'000'000 + s.range(-2, 2);
      return s.coin() ? -v : v;
    }
    case 2: {
      const int64_t v = s.range(0, limit);
      return s.coin() ? -v : v;
    }
    case 3: {  // Log-uniform
      const int64_t v = std::min<int64_t>(limit, static_cast<int64_t>(std::exp(s.uniform(0, std::log(static_cast<double>(limit) * 0.99)))));
      return s.coin() ? -v : v;
    }
    case 4:
      return s.coin() ? limit - s.range(0, 3) : -limit + s.range(0, 3);
    default: {  // Decimal fractions of a second
      const int64_t unit = s.pick(std::vector<int64_t>{1, 10, 100, 1'000, 10'000, 100'000, 1'000'000, 10'000'000, 100'000'000});
      const int64_t v = unit * s.range(0, 1000);
      return s.coin() ? -v : v;
    }
  }
}

void secs_and_nanos(Src &s) {
  const int64_t n = s.chance(1, 20) ? (s.coin() ? MIN : MAX) : nanos(s, MAX);
  s.note("duration ", n, "ns");
  if (n % 1'000'000'000 != 0) s.nontrivial();
  const SecsAndNanos v = to_seconds_and_nanos(Duration{n});
  PBT_CHECK(s, __int128{v.secs} * 1'000'000'000 + v.nanos == n, "secs=", v.secs, " nanos=", v.nanos, " do not add up to ", n);
  PBT_CHECK(s, v.nanos > -1'000'000'000 && v.nanos < 1'000'000'000, "nanos=", v.nanos, " is not a fraction of a second");
  PBT_CHECK(s, n < 0 || (v.secs >= 0 && v.nanos >= 0), "negative part in a non-negative duration: secs=", v.secs, " nanos=", v.nanos);
  PBT_CHECK(s, from_seconds_and_nanos(v) == Duration{n}, "back and forth gives ", from_seconds_and_nanos(v).count());
  // Any split of the same duration means the same duration
  if (v.secs > MIN / 1'000'000'000 + 2 && v.secs < MAX / 1'000'000'000 - 2) {
    SecsAndNanos w = v;
    w.secs += 1;
    w.nanos -= 1'000'000'000;
    PBT_CHECK(s, from_seconds_and_nanos(w) == Duration{n}, "equivalent split gives ", from_seconds_and_nanos(w).count());
  }
}

// Times of up to weeks survive the trip through doubles exactly
void small_exact(Src &s) {
  const int64_t limit = int64_t{1} << 51;
  const int64_t n = nanos(s, limit - 1);
  s.note("duration ", n, "ns");
  if (n % 1'000'000'000 != 0) s.nontrivial();
  const double sec = as_seconds(Duration{n});
  PBT_CHECK(s, std::abs(static_cast<long double>(sec) * 1e9L - n) <= 0.5L, "as_seconds gives ", sec);
  PBT_CHECK(s, as_duration(sec) == Duration{n}, "after a trip through ", sec, " s it is ", as_duration(sec).count(), "ns");
}

// Larger ones to within the precision of doubles
void large(Src &s) {
  const int64_t n = nanos(s, MAX - 2'000'000'000);
  s.note("duration ", n, "ns");
  if (std::abs(n) > (int64_t{1} << 53)) s.nontrivial();
  const double sec = as_seconds(Duration{n});
  const long double exact = static_cast<long double>(n) / 1e9L;
  PBT_CHECK(s, std::abs(sec - exact) <= std::abs(exact) * 4e-16L, "as_seconds gives ", sec);
  const __int128 back = as_duration(sec).count();
  const __int128 err = back > n ? back - n : n - back;
  PBT_CHECK(s, static_cast<long double>(err) <= 1 + std::abs(static_cast<long double>(n)) * 4e-16L, "after a trip through seconds it is ", as_duration(sec).count());
}

// Seconds to durations: never off by a nanosecond or more
void from_seconds(Src &s) {
  const double sec = static_cast<double>(nanos(s, MAX / 4)) * 1e-9 * s.uniform(0.5, 1);
  s.note("seconds ", sec);
  s.nontrivial();
  const long double exact = static_cast<long double>(sec) * 1e9L;
  const long double err = std::abs(static_cast<long double>(as_duration(sec).count()) - exact);
  PBT_CHECK(s, err < 1 + std::abs(exact) * 4e-16L, "as_duration gives ", as_duration(sec).count(), "ns");
  const Duration a = as_duration(sec);
  const Duration b = as_duration(-sec);
  PBT_CHECK(s, std::abs((a + b).count()) <= 1, "conversion is not symmetric");
  const double more = sec + std::abs(sec) * s.unit() + s.unit();
  PBT_CHECK(s, as_duration(more) >= a, "conversion is not monotonic");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C15",
      "durations over the whole 64-bit range (limits, whole seconds +-2 ns, decimal fractions, log-uniform), converted to "
      "seconds+nanoseconds and to doubles and back, compared with 128-bit / extended-precision arithmetic; non-trivial: not "
      "a whole number of seconds / beyond 2^53 ns",
      {
          {"secs_and_nanos", secs_and_nanos, 200000, 8000000},
          {"small_exact", small_exact, 200000, 8000000},
          {"large", large, 100000, 4000000},
          {"from_seconds", from_seconds, 100000, 4000000},
      },
      {"the exact trip through doubles is claimed below 2^51 ns (26 days)"}};
}
