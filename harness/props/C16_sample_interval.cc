// C16: sampling intervals.
// @quick_scale: 20
#include "pbt.hh"
#include "resim/assert/assert.hh"
#include "resim/time/sample_interval.hh"

namespace {
using pbt::Src;
using resim::AssertException;
using namespace resim::time;
using W = __int128;
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();

int64_t stamp(Src &s) {
  switch (s.weighted({3, 2, 2, 1})) {
    case 0:
      return s.range(-100, 100);
    case 1:
      return s.range(-2'000'000'000'000'000'000, 2'000'000'000'000'000'000);
    case 2:
      return static_cast<int64_t>(s.bits());
    default:
      return s.coin() ? MAX - s.range(0, 100) : MIN + s.range(0, 100);
  }
}

void timestamps(Src &s) {
  int64_t a = stamp(s);
  int64_t b = a;
  int64_t dt = 1;
  switch (s.weighted({3, 2, 2, 1})) {
    case 0: {  // Few nanoseconds
      const W v = W{a} + s.range(-300, 300);
      if (v >= MIN && v <= MAX) b = static_cast<int64_t>(v);
      dt = s.range(1, 40);
      break;
    }
    case 1: {  // Seconds, with a step that gives a moderate number of samples
      const int64_t len = s.range(0, 100'000'000'000);
      const W v = s.coin() ? W{a} + len : W{a} - len;
      if (v >= MIN && v <= MAX) b = static_cast<int64_t>(v);
      dt = std::max<int64_t>(1, len / s.range(1, 500) + s.range(-1, 1));
      break;
    }
    case 2: {  // Anything
      b = stamp(s);
      const W len = W{a} > b ? W{a} - b : W{b} - a;
      W d = len / s.range(1, 300) + s.range(0, 2);
      dt = d < 1 ? 1 : d > MAX ? MAX : static_cast<int64_t>(d);
      break;
    }
    default:
      dt = s.range(1, 100);  // Empty
  }
  if (s.chance(1, 3)) std::swap(a, b);
  const W len = W{a} > b ? W{a} - b : W{b} - a;
  s.note("from ", a, " to ", b, " step at most ", dt);
  const Timestamp ta{Duration{a}};
  const Timestamp tb{Duration{b}};
  if (len > MAX) {  // The length is not representable
    PBT_CHECK(s, pbt::throws<AssertException>([&] { num_samples(ta, tb, Duration{dt}); }), "an interval longer than a duration was counted");
    PBT_CHECK(s, pbt::throws<AssertException>([&] { sample_interval(ta, tb, Duration{dt}, [](Timestamp) {}); }), "an interval longer than a duration was sampled");
    s.label("too long");
    return;
  }
  // The smallest number of intervals with len / intervals <= dt
  const W intervals = (len + dt - 1) / dt;
  if (intervals > 5000) {
    PBT_CHECK(s, num_samples(ta, tb, Duration{dt}) == static_cast<int64_t>(intervals + 1), "number of samples");
    return;
  }
  const int64_t n = num_samples(ta, tb, Duration{dt});
  PBT_CHECK(s, n == static_cast<int64_t>(intervals + 1), "number of samples ", n, " expected ", static_cast<int64_t>(intervals + 1));
  if (intervals > 1 && len % intervals != 0) s.nontrivial();
  if (b < a) s.label("backwards");
  std::vector<int64_t> got;
  sample_interval(ta, tb, Duration{dt}, [&](Timestamp t) { got.push_back(t.time_since_epoch().count()); });
  PBT_CHECK(s, static_cast<int64_t>(got.size()) == n, "sampled ", got.size(), " times, announced ", n);
  PBT_CHECK(s, got.front() == a && got.back() == b, "the ends are not sampled: ", got.front(), " ", got.back());
  for (size_t i = 0; i < got.size(); ++i) {
    // |got - (a + i (b-a)/intervals)| <= 1/2
    const W k = intervals == 0 ? 1 : intervals;
    W e = (W{got[i]} - a) * k - static_cast<W>(i) * (W{b} - a);
    if (e < 0) e = -e;
    PBT_CHECK(s, 2 * e <= k, "sample ", i, " at ", got[i], " is not the closest timestamp to ", static_cast<double>(a) + static_cast<double>(i) * (static_cast<double>(b) - static_cast<double>(a)) / static_cast<double>(k));
    if (i > 0) {
      W gap = W{got[i]} - got[i - 1];
      if (gap < 0) gap = -gap;
      PBT_CHECK(s, gap <= W{dt}, "gap ", static_cast<int64_t>(gap), " between samples ", i - 1, " and ", i);
      PBT_CHECK(s, b >= a ? got[i] >= got[i - 1] : got[i] <= got[i - 1], "samples out of order");
    }
  }
}

void doubles(Src &s) {
  double a = s.symmetric(s.pick(std::vector<double>{1., 100., 1e6}));
  // The ends independently of each other, or one from the other
  const bool independent = s.coin();
  double b = independent ? s.symmetric(s.pick(std::vector<double>{1e-9, 1., 100., 1e6})) : 0;
  double len = independent ? std::abs(b - a) : s.weighted({3, 1, 1}) == 0 ? s.uniform(0, 10) : s.coin() ? 0 : std::exp(s.uniform(-10, 10));
  double dt = 0;
  switch (s.below(3)) {
    case 0:
      dt = len / static_cast<double>(s.range(1, 400));  // (Nearly) exact fractions
      break;
    case 1:
      dt = len / s.uniform(0.1, 300);
      break;
    default:
      dt = std::exp(s.uniform(-3, 5));
      if (len / dt > 1000) dt = len / 1000;
  }
  if (!(dt > 0)) dt = 1;
  if (s.chance(1, 12)) {  // Hardly a step at all, or none
    dt = s.pick(std::vector<double>{std::numeric_limits<double>::infinity(), std::numeric_limits<double>::max(), 1e300, 1e30, len * (1 + 1e-9), len * 2});
    if (!(dt > 0)) dt = 1;
    if (!independent && s.chance(1, 3)) len = s.pick(std::vector<double>{1e-300, 1e-320, 5e-324});
    s.label("wide step");
  }
  if (!independent) b = s.coin() ? a + len : a - len;
  if (s.chance(1, 12)) {  // Hardly apart
    b = a;
    for (size_t k = s.below(4); k > 0; --k) b = std::nextafter(b, HUGE_VAL);
    if (s.coin()) b += std::abs(a) * std::exp(s.uniform(-36, -12));
    if (s.coin()) std::swap(a, b);
    const double l = std::abs(b - a);
    dt = s.coin() ? l / s.uniform(0.1, 50) : std::exp(s.uniform(-3, 5));
    if (l / dt > 1000) dt = l / 1000;
    if (!(dt > 0)) dt = 1;
    s.label("hardly apart");
  }
  if (s.chance(1, 6)) {  // The same at another scale
    const int k = static_cast<int>(s.range(-950, 950));
    const double dt2 = std::ldexp(dt, k);
    if (dt2 > 0) {
      a = std::ldexp(a, k);
      b = std::ldexp(b, k);
      dt = dt2;
    }
  }
  s.note("from ", a, " to ", b, " step at most ", dt);
  const int64_t n = num_samples(a, b, dt);
  const long double q = std::abs(static_cast<long double>(b) - a) / dt;
  // The minimal count, but for rounding right at a multiple of the step
  PBT_CHECK(s, n - 1 >= q * (1 - 1e-12L) - 1e-12L, "too few samples: ", n);
  PBT_CHECK(s, n - 2 < q * (1 + 1e-12L) || n <= 2, "more samples than needed: ", n);
  PBT_CHECK(s, (a == b) == (n == 1), "an interval that is ", a == b ? "" : "not ", "empty has ", n, " samples");
  if (q > 1) s.nontrivial();
  std::vector<double> got;
  sample_interval(a, b, dt, [&](double t) { got.push_back(t); });
  PBT_CHECK(s, static_cast<int64_t>(got.size()) == n, "sampled ", got.size(), " times, announced ", n);
  PBT_CHECK(s, got.front() == a && got.back() == b, "the ends are not sampled exactly: ", got.front(), " ", got.back());
  const double eps = 1e-14 * (std::abs(a) + std::abs(b)) + 1e-320;
  for (size_t i = 0; i < got.size(); ++i) {
    const double want = n == 1 ? a : a + (b - a) * static_cast<double>(i) / static_cast<double>(n - 1);
    PBT_CHECK(s, std::abs(got[i] - want) <= eps, "sample ", i, " at ", got[i], " expected ", want);
    if (i > 0) PBT_CHECK(s, std::abs(got[i] - got[i - 1]) <= dt * (1 + 1e-12) + 4 * eps, "gap between samples ", i - 1, " and ", i);
  }
}

// Numbers of samples beyond what can be visited, and invalid steps
void counting(Src &s) {
  const double q = std::exp(s.uniform(0, 41));
  const double dt = std::exp(s.uniform(-5, 5));
  const double total = q * dt;
  s.note("total ", total, " step ", dt);
  if (q > 2147483647.) s.nontrivial();
  const int64_t n = num_samples(0., s.coin() ? total : -total, dt);
  const long double exact = std::ceil(static_cast<long double>(total) / dt) + 1;
  PBT_CHECK(s, std::abs(static_cast<long double>(n) - exact) <= 1 + exact * 1e-15L, "number of samples ", n, " expected ", exact);
  // More samples than can be counted
  const double many = std::exp2(s.chance(1, 2) ? s.uniform(62.9, 63.1) : s.uniform(63, 900));
  const double sign = s.coin() ? 1 : -1;
  int64_t k = 0;
  const bool refused = pbt::throws<AssertException>([&] { k = num_samples(0., sign * many * dt, dt); });
  const long double need = static_cast<long double>(many * dt) / dt;
  s.note(many, " steps");
  if (refused) {
    PBT_CHECK(s, need > 0x1p63L * (1 - 1e-12L), "an interval of ", need, " steps was refused");
  } else {
    PBT_CHECK(s, need < 0x1p63L * (1 + 1e-12L) && std::abs(static_cast<long double>(k) - need) <= 1 + need * 1e-12L, "number of samples ", k, " expected ", need);
  }
  // No interval at all
  const double inf = std::numeric_limits<double>::infinity();
  const double end = s.pick(std::vector<double>{inf, -inf, std::nan("")});
  const double begin = s.symmetric(10);
  const double step = s.chance(1, 4) ? inf : dt;
  const bool swapped = s.coin();
  s.note("from ", swapped ? end : begin, " to ", swapped ? begin : end, " step ", step);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { num_samples(swapped ? end : begin, swapped ? begin : end, step); }), "an infinite interval was counted");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { sample_interval(swapped ? end : begin, swapped ? begin : end, step, [](double) { pbt::fail("sampled"); }); }), "an infinite interval was sampled");
  const double bad = s.pick(std::vector<double>{0., -0., -std::exp(s.uniform(-10, 10)), std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::infinity(), -5e-324});
  PBT_CHECK(s, pbt::throws<AssertException>([&] { num_samples(0., total, bad); }), "step ", bad, " accepted");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { sample_interval(0., total, bad, [](double) { pbt::fail("sampled"); }); }), "step ", bad, " accepted");
  const Duration bad_d{s.coin() ? 0 : -s.range(1, MAX)};
  const Timestamp t0{};
  const Timestamp t1{Duration{s.range(1, MAX)}};
  PBT_CHECK(s, pbt::throws<AssertException>([&] { num_samples(t0, t1, bad_d); }), "step ", bad_d.count(), " accepted");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { sample_interval(t0, t1, bad_d, [](Timestamp) { pbt::fail("sampled"); }); }), "step ", bad_d.count(), " accepted");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C16",
      "intervals of timestamps over the whole 64-bit range (forwards, backwards, empty, unrepresentably long) and of doubles at "
      "scales of 2^-950..2^950, infinite ones, ones of more than 2^63 steps, "
      "with steps giving 0..5000 intervals, exact fractions and off-by-one steps; sample positions compared with exact "
      "rational positions in 128-bit arithmetic; non-trivial: more than one interval that does not divide evenly (timestamps), "
      "more than one interval (doubles), more than 2^31 samples (counting)",
      {
          {"timestamps", timestamps, 40000, 2000000},
          {"doubles", doubles, 30000, 1500000},
          {"counting", counting, 40000, 1000000},
      },
      {"sample positions of doubles are compared within rounding"}};
}
