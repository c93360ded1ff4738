// C10: trajectories.
// @quick_scale: 5
#include "resim/actor/state/trajectory.hh"
#include "states.hh"

namespace {
using namespace gen;
using resim::actor::state::Trajectory;
using resim::time::Duration;
using resim::time::Timestamp;
using Curve = resim::curves::TCurve<SE3>;

struct Model {
  bool framed = false;
  std::vector<Frame> fr;
  std::vector<Trajectory::Control> pts;
};

SE3 frame_it(SE3 g, const Model &m, int how = 0) {
  switch (how) {
    case 0:
      if (m.framed) g.set_frames(m.fr[0], m.fr[1]);
      break;
    case 1:
      g.set_frames(m.fr[1], m.fr[0]);
      break;
    case 2:
      g.set_frames(m.fr[2], m.fr[1]);
      break;
    case 3:
      g.set_frames(m.fr[0], m.fr[2]);
      break;
    default:
      if (!m.framed) g.set_frames(m.fr[0], m.fr[1]);
  }
  return g;
}

// Steps of up to days, exact to the nanosecond
int64_t step_ns(Src &s) {
  switch (s.weighted({3, 3, 2, 1})) {
    case 0:
      return s.range(1, 3'000'000'000);
    case 1:
      return s.pick(std::vector<int64_t>{1'000'000'000, 100'000'000, 1'000'000, 500'000'000, 33'333'333, 10'000'000});
    case 2:
      return s.range(1'000'000, 600'000'000'000);
    default:
      return s.range(1'000, 100'000);
  }
}

Timestamp epoch(Src &s) {
  switch (s.weighted({2, 2, 2, 1})) {
    case 0:
      return Timestamp{};
    case 1:
      return Timestamp{Duration{1'672'531'200'000'000'000 + s.range(0, 1'000'000'000'000'000'000)}};
    case 2:
      return Timestamp{Duration{s.range(-1'000'000'000'000'000'000, 1'000'000'000'000'000'000)}};
    default:
      return Timestamp{Duration{s.range(-5'000'000'000, 5'000'000'000)}};
  }
}

Trajectory::Control control(Src &s, const Model &m, Timestamp t, int64_t dt) {
  const double sec = static_cast<double>(dt) * 1e-9;
  Derivs d = derivs(s, 3.);
  d.velocity.linear_mps /= sec;
  d.velocity.angular_radps /= sec;
  d.acceleration.linear_mpss /= sec * sec;
  d.acceleration.angular_radpss /= sec * sec;
  return {t, State{frame_it(se3(s, 10), m), d}};
}

std::string show(const Model &m) {
  std::string out = m.framed ? "framed" : "unframed";
  for (const auto &p : m.pts) {
    out += "\n t=" + std::to_string(p.at_time.time_since_epoch().count()) + "ns " + gen::show(p.state);
  }
  return out;
}

bool equal(const State &a, const State &b) {
  return matrix_of(a.ref_from_body()) == matrix_of(b.ref_from_body()) && same(a.body_derivatives(), b.body_derivatives()) &&
         a.ref_from_body().verify_frames(b.ref_from_body().into(), b.ref_from_body().from());
}

void metadata(Src &s, const Trajectory &t, const Model &m) {
  if (m.pts.empty()) {
    PBT_CHECK(s, pbt::throws<AssertException>([&] { t.time_duration(); }) && pbt::throws<AssertException>([&] { t.end_time(); }), "duration of an empty trajectory");
    PBT_CHECK(s, pbt::throws<AssertException>([&] { t.reference_frame(); }) && pbt::throws<AssertException>([&] { t.body_frame(); }), "frames of an empty trajectory");
    return;
  }
  const Timestamp a = m.pts.front().at_time;
  const Timestamp b = m.pts.back().at_time;
  PBT_CHECK(s, t.start_time() == a, "start time ", t.start_time().time_since_epoch().count(), " expected ", a.time_since_epoch().count());
  PBT_CHECK(s, t.end_time() == b, "end time ", t.end_time().time_since_epoch().count(), " expected ", b.time_since_epoch().count());
  PBT_CHECK(s, t.time_duration() == b - a, "duration ", t.time_duration().count(), " expected ", (b - a).count());
  const Frame none = Frame::null_frame();
  PBT_CHECK(s, t.reference_frame() == (m.framed ? m.fr[0] : none), "reference frame");
  PBT_CHECK(s, t.body_frame() == (m.framed ? m.fr[1] : none), "body frame");
  PBT_CHECK(s, t.curve().control_pts().size() == m.pts.size(), "number of control points");
}

Trajectory make(Src &s, const Model &m) {
  switch (s.below(4)) {
    case 0:
    case 1: {
      Trajectory t;
      for (const auto &p : m.pts) t.append(p);
      return t;
    }
    case 2: {
      if (m.pts.size() == 2) return Trajectory{m.pts[0], m.pts[1]};
      Trajectory t{m.pts[0], m.pts[1], m.pts[2]};
      for (size_t i = 3; i < m.pts.size(); ++i) t.append({m.pts[i]});
      return t;
    }
    default: {  // From a curve which starts at zero
      Curve c;
      for (const auto &p : m.pts) {
        const double sec = static_cast<double>((p.at_time - m.pts[0].at_time).count()) / 1e9;
        c.append({sec, p.state.ref_from_body_two_jet().left_two_jet()});
      }
      s.label("from a curve");
      return Trajectory{c, m.pts[0].at_time};
    }
  }
}

void samples(Src &s) {
  Model m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  Timestamp t0 = epoch(s);
  const size_t n = 2 + s.count(6, 60);
  std::vector<int64_t> dts;
  // Usually steps of a similar size, so that all segments are well resolved
  const bool lengthy = s.chance(1, 6);  // Up to 26 days
  const bool uneven = !lengthy && s.chance(1, 4);
  const int64_t base = lengthy ? s.range(1'000'000'000'000, 2'200'000'000'000'000 / (3 * static_cast<int64_t>(n) + 3)) : step_ns(s) + 1000;
  if (lengthy) s.label("days long");
  for (size_t i = 0; i < n; ++i) {
    const int64_t dt = uneven ? step_ns(s) : s.range(base, 3 * base);
    dts.push_back(dt);
    m.pts.push_back(control(s, m, t0, dt));
    t0 += Duration{dt};
  }
  const Trajectory t = make(s, m);
  s.note(show(m));
  if (n > 2) s.nontrivial();
  metadata(s, t, m);
  double mag = 1;
  for (const auto &p : m.pts) mag = std::max(mag, 1 + p.state.ref_from_body().translation().norm());
  const Timestamp start = m.pts.front().at_time;
  for (size_t i = 0; i < n; ++i) {
    const auto &p = m.pts[i];
    const State x = t.point_at(p.at_time);
    PBT_CHECK(s, x.ref_from_body().verify_frames(p.state.ref_from_body().into(), p.state.ref_from_body().from()), "frames at control point ", i);
    if (uneven) {
      continue;
    }
    // Nanosecond times become doubles of seconds from the start
    const double span = static_cast<double>(base) * 1e-9;
    const double jitter = static_cast<double>((p.at_time - start).count()) * 1e-9 * 4e-16 / span;
    const double e = (1e-9 + 1e4 * jitter) * mag * mag * mag;
    PBT_CHECK(s, close(matrix_of(x.ref_from_body()), matrix_of(p.state.ref_from_body()), e), "pose at control point ", i, ": ", gen::show(x));
    PBT_CHECK(s, same(x.body_derivatives(), p.state.body_derivatives(), 30 * e / span, 100 * e / span / span), "derivatives at control point ", i, ": ", gen::show(x), " tol ", 30 * e / span, " ",
              100 * e / span / span);
  }
  // Timestamps and durations from the start mean the same; the underlying curve agrees
  const int64_t total = (m.pts.back().at_time - start).count();
  for (int k = 0; k < 3; ++k) {
    const Duration q{s.range(0, total)};
    const State a = t.point_at(start + q);
    const State b = t.point_at(q);
    PBT_CHECK(s, equal(a, b), "the state at a timestamp and at the same duration differ, at ", q.count(), "ns");
    const JetL<SE3> j = t.curve().point_at(static_cast<double>(q.count()) / 1e9);
    const MJet want = inverse(mjet(j));
    const MJet got = motion(a);
    const double tol = 1e-10 * (1 + maxabs(want.m)) * (1 + maxabs(want.m));
    PBT_CHECK(s, lclose(got.m, want.m, tol), "the pose differs from the curve's at ", q.count());
    PBT_CHECK(s, lclose(got.d, want.d, tol * (1 + maxabs(want.d)) * (1 + maxabs(want.d))), "the velocity differs from the curve's at ", q.count());
    PBT_CHECK(s, lclose(got.d2, want.d2, tol * (1 + maxabs(want.d)) * (1 + maxabs(want.d)) * (1 + maxabs(want.d2))), "the acceleration differs from the curve's at ", q.count());
  }
  // Out of range
  const Duration before{s.coin() ? 1 : s.range(1, 1'000'000'000'000)};
  PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(start - before); }), "a query before the start was answered");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(-before); }), "a query at a negative duration was answered");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(t.end_time() + before); }), "a query after the end was answered");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(t.time_duration() + before); }), "a query beyond the duration was answered");
  const Timestamp far = s.coin() ? (s.coin() ? Timestamp::min() : Timestamp::max())
                                 : Timestamp{Duration{s.coin() ? s.range(std::numeric_limits<int64_t>::min(), -4'000'000'000'000'000'000) : s.range(4'000'000'000'000'000'000, std::numeric_limits<int64_t>::max())}};
  PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(far); }), "a query at ", far.time_since_epoch().count(), " was answered");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(s.coin() ? Duration::min() : Duration::max()); }), "a query at an extreme duration was answered");
  // In range, to the nanosecond
  PBT_CHECK(s, equal(t.point_at(t.start_time()), t.point_at(Duration{0})), "state at the start");
  PBT_CHECK(s, equal(t.point_at(t.end_time()), t.point_at(t.time_duration())), "state at the end");
}

void history(Src &s) {
  Model m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  Trajectory t;
  Timestamp now = epoch(s);
  bool rejected = false;
  const size_t n = 3 + s.count(14, 150);
  for (size_t k = 0; k < n; ++k) {
    const int64_t dt = s.chance(1, 5) ? s.range(1, 5) : step_ns(s);
    switch (s.weighted({4, 2, 2, 2, 1})) {
      case 0: {
        if (!m.pts.empty()) now = m.pts.back().at_time + Duration{dt};
        const auto p = control(s, m, now, 1'000'000'000);
        s.note("append ", now.time_since_epoch().count());
        t.append(p);
        m.pts.push_back(p);
        break;
      }
      case 1: {
        if (m.pts.empty()) break;
        Timestamp bad = m.pts.back().at_time - (s.coin() ? Duration{0} : s.coin() ? Duration{1} : Duration{dt});
        if (s.chance(1, 5)) {  // As early as can be
          bad = Timestamp{Duration{s.coin() ? std::numeric_limits<int64_t>::min() : s.range(std::numeric_limits<int64_t>::min(), -2'000'000'000'000'000'000)}};
        }
        s.note("append at non-increasing time ", bad.time_since_epoch().count());
        const auto p = control(s, m, bad, 1'000'000'000);
        PBT_CHECK(s, pbt::throws<AssertException>([&] { t.append(p); }), "a control point which is not later was accepted");
        rejected = true;
        break;
      }
      case 2: {
        if (m.pts.empty()) break;
        const int how = 1 + static_cast<int>(s.below(4));
        s.note("append with frame error ", how);
        SE3 g = frame_it(se3(s, 10), m, how);
        PBT_CHECK(s, pbt::throws<AssertException>([&] { t.append({m.pts.back().at_time + Duration{dt}, State{g}}); }), "a control point with other frames was accepted, kind ", how);
        rejected = true;
        break;
      }
      case 3: {
        const int64_t total = m.pts.empty() ? 0 : (m.pts.back().at_time - m.pts.front().at_time).count();
        const int64_t q = s.below(4) == 0 ? (s.coin() ? -1 : total + 1) : s.range(0, total);
        const bool bad = m.pts.size() < 2 || q < 0 || q > total;
        s.note("query ", q, " of ", total);
        const Timestamp base = m.pts.empty() ? Timestamp{} : m.pts.front().at_time;
        PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(Duration{q}); }) == bad, "duration query at ", q, bad ? " should be refused" : " should be answered");
        PBT_CHECK(s, pbt::throws<AssertException>([&] { t.point_at(base + Duration{q}); }) == bad, "timestamp query at ", q, bad ? " should be refused" : " should be answered");
        break;
      }
      default: {
        if (!m.pts.empty()) now = m.pts.back().at_time + Duration{dt};
        const auto p = control(s, m, now, 1'000'000'000);
        auto q = control(s, m, now + Duration{dt}, 1'000'000'000);
        s.note("batch");
        if (s.chance(1, 3)) {  // The second of which is refused; the first may be kept
          q.at_time = now - Duration{s.range(0, 2)};
          PBT_CHECK(s, pbt::throws<AssertException>([&] { t.append({p, q}); }), "a control point which is not later was accepted in a batch");
          if (t.curve().control_pts().size() == m.pts.size() + 1) m.pts.push_back(p);
          rejected = true;
          break;
        }
        t.append({p, q});
        m.pts.push_back(p);
        m.pts.push_back(q);
      }
    }
    metadata(s, t, m);
  }
  if (rejected && m.pts.size() >= 2) s.nontrivial();
  if (m.pts.size() >= 2) {
    Trajectory fresh;
    for (const auto &p : m.pts) fresh.append(p);
    const Duration q{s.range(0, (m.pts.back().at_time - m.pts.front().at_time).count())};
    PBT_CHECK(s, equal(t.point_at(q), fresh.point_at(q)), "a trajectory after its history differs from a fresh one");
    Trajectory copy = t;
    copy.append({m.pts.back().at_time + Duration{1'000'000'000}, m.pts.back().state});
    metadata(s, t, m);
    // The last point may now be taken from the next segment, with other rounding
    if (t.start_time() + q < t.end_time()) PBT_CHECK(s, equal(t.point_at(q), copy.point_at(q)), "extending a trajectory changed its past");
  }
}
// A list of control points one of which does not belong.
void built(Src &s) {
  Model m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  Timestamp t = epoch(s);
  const size_t n = 2 + s.below(2);
  for (size_t i = 0; i < n; ++i) {
    m.pts.push_back(control(s, m, t, 1'000'000'000));
    t += Duration{step_ns(s)};
  }
  const size_t at = 1 + s.below(n - 1);
  auto pts = m.pts;
  const int how = static_cast<int>(s.below(5));
  if (how == 0) {
    pts[at].at_time = pts[at - 1].at_time - Duration{s.coin() ? 0 : s.coin() ? 1 : step_ns(s)};
  } else {
    pts[at].state = State{frame_it(se3(s, 10), m, how)};
  }
  s.note(show(m));
  s.note("point ", at, " of ", n, " made wrong, kind ", how);
  s.nontrivial();
  const auto make_it = [&] {
    if (n == 2) {
      Trajectory x{pts[0], pts[1]};
    } else {
      Trajectory x{pts[0], pts[1], pts[2]};
    }
  };
  PBT_CHECK(s, pbt::throws<AssertException>(make_it), "a list of control points was accepted whose point ", at, " is wrong, kind ", how);
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C10",
      "trajectories of 2-8 timestamped states (epochs from 1938 to 2050, steps 1 ns to days exact to the ns, random poses "
      "and derivatives), built by appending, from lists and from a curve; metadata to the nanosecond, states at control "
      "times, timestamp/duration agreement, range refusal, and histories mixing valid and rejected appends with queries; "
      "non-trivial: more than one segment / a rejected append followed by a usable trajectory",
      {
          {"samples", samples, 10000, 400000},
          {"history", history, 10000, 300000},
          {"built", built, 8000, 200000},
      },
      {"trajectories made from a curve are given curves that start at time zero, as documented",
       "total durations stay below the 2^51 ns that doubles of seconds resolve"}};
}
