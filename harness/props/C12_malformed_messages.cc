// C12: unpacking is total: a message becomes a valid object or is refused.
// @quick_scale: 4
#include "mutate.hh"
#include "protos.hh"

namespace {
using namespace gen;
namespace tp = resim::transforms::proto;
namespace cp = resim::curves::proto;
namespace sp = resim::actor::state::proto;

enum class Verdict { GOOD, BAD, ANY };
Verdict both(Verdict a, Verdict b) {
  if (a == Verdict::BAD || b == Verdict::BAD) return Verdict::BAD;
  return a == Verdict::ANY || b == Verdict::ANY ? Verdict::ANY : Verdict::GOOD;
}

// ---- the reference: which messages denote an object ----
Verdict judge(const resim::proto::UUID &m) {
  const std::string &d = m.data();
  if (d.size() != 36) return Verdict::BAD;
  for (size_t i = 0; i < 36; ++i) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? d[i] != '-' : !std::isxdigit(static_cast<unsigned char>(d[i]))) return Verdict::BAD;
  }
  return Verdict::GOOD;
}
Verdict judge(const tp::Frame_3 &m) { return judge(m.id()); }
template <typename R>
Verdict numbers(const R &r, int n) {
  if (r.size() != n) return Verdict::BAD;
  for (double v : r)
    if (!(std::abs(v) < 1e100)) return Verdict::ANY;  // Whether such values are refused is left open
  return Verdict::GOOD;
}
Verdict judge(const tp::FramedVector_3 &m) { return both(numbers(m.algebra(), 3), judge(m.frame())); }
bool null_id(const tp::Frame_3 &f) { return f.id().data() == "00000000-0000-0000-0000-000000000000"; }
template <typename M>
Verdict judge_group(const M &m, int dof) {
  const Verdict v = both(numbers(m.algebra(), dof), both(judge(m.into()), judge(m.from())));
  // One frame without the other is not supported
  return v != Verdict::BAD && null_id(m.into()) != null_id(m.from()) ? Verdict::BAD : v;
}
Verdict judge(const tp::SO3 &m) { return judge_group(m, 3); }
Verdict judge(const tp::SE3 &m) { return judge_group(m, 6); }
Verdict judge(const cp::TwoJetL_SE3 &m) { return both(judge(m.frame_from_ref()), both(numbers(m.d_frame_from_ref(), 6), numbers(m.d2_frame_from_ref(), 6))); }
Verdict judge(const cp::TwoJetL_SO3 &m) { return both(judge(m.frame_from_ref()), both(numbers(m.d_frame_from_ref(), 3), numbers(m.d2_frame_from_ref(), 3))); }
Verdict judge(const cp::TwoJetR_SE3 &m) { return both(judge(m.ref_from_frame()), both(numbers(m.d_ref_from_frame(), 6), numbers(m.d2_ref_from_frame(), 6))); }
Verdict judge(const cp::TwoJetR_SO3 &m) { return both(judge(m.ref_from_frame()), both(numbers(m.d_ref_from_frame(), 3), numbers(m.d2_ref_from_frame(), 3))); }
// Called with valid ids only
std::string key(const tp::Frame_3 &f) {
  std::string k = f.id().data();
  for (auto &c : k) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
  return k;
}
Verdict judge(const cp::DCurve_SE3 &m) {
  Verdict v = Verdict::GOOD;
  for (const auto &p : m.ref_from_control()) v = both(v, judge(p));
  if (v == Verdict::BAD) return v;
  for (const auto &p : m.ref_from_control()) {
    const auto &first = m.ref_from_control(0);
    if (key(p.into()) != key(first.into()) || key(p.from()) != key(first.from())) {
      // A curve whose first point is unframed makes no promise about the others
      v = both(v, null_id(first.into()) ? Verdict::ANY : Verdict::BAD);
    }
  }
  return v;
}
template <typename M>
Verdict judge_tcurve(const M &m) {
  Verdict v = Verdict::GOOD;
  for (const auto &p : m.points()) v = both(v, judge(p.point()));
  if (v == Verdict::BAD) return v;
  for (int i = 0; i < m.points_size(); ++i) {
    if (!std::isfinite(m.points(i).time())) v = Verdict::BAD;
    if (!(std::abs(m.points(i).time()) < 1e100)) v = both(v, Verdict::ANY);
    if (i == 0) continue;
    if (!(m.points(i).time() > m.points(i - 1).time())) v = Verdict::BAD;
    const auto &a = m.points(0).point().frame_from_ref();
    const auto &b = m.points(i).point().frame_from_ref();
    if (key(a.into()) != key(b.into()) || key(a.from()) != key(b.from())) v = Verdict::BAD;
  }
  return v;
}
Verdict judge(const cp::TCurve_SE3 &m) { return judge_tcurve(m); }
Verdict judge(const cp::TCurve_SO3 &m) { return judge_tcurve(m); }
Verdict judge(const sp::Trajectory &m) {
  Verdict v = judge(m.curve());
  const __int128 ns = static_cast<__int128>(m.start_time().seconds()) * 1'000'000'000 + m.start_time().nanos();
  if (ns > std::numeric_limits<int64_t>::max() || ns < std::numeric_limits<int64_t>::min()) return Verdict::BAD;
  // Outside what google.protobuf.Timestamp allows, nothing is promised
  if (std::abs(static_cast<int64_t>(m.start_time().nanos())) > 999'999'999) v = both(v, Verdict::ANY);
  if (std::abs(static_cast<double>(ns)) > 9.22e18) v = both(v, Verdict::ANY);
  return v;
}

// ---- what an accepted message must have become ----
template <typename T>
void inspect(Src &, const T &) {}
void inspect(Src &s, const DCurve &c) {
  PBT_CHECK(s, c.control_pts().empty() || c.segments().size() == c.control_pts().size() - 1, "segments and control points do not match");
  for (size_t i = 1; i < c.control_pts().size(); ++i) {
    if (c.is_framed()) {
      PBT_CHECK(s, c.control_pts()[i].ref_from_control->verify_frames(c.reference_frame(), c.point_frame()), "inconsistent frames in an accepted curve");
    }
  }
}
template <typename G>
void inspect(Src &s, const TCurve<G> &c) {
  PBT_CHECK(s, c.control_pts().empty() || c.segments().size() == c.control_pts().size() - 1, "segments and control points do not match");
  for (size_t i = 1; i < c.control_pts().size(); ++i) {
    PBT_CHECK(s, c.control_pts()[i].time > c.control_pts()[i - 1].time, "times do not increase in an accepted curve");
    PBT_CHECK(s, c.control_pts()[i].point.frame_from_ref().verify_frames(c.point_frame(), c.reference_frame()), "inconsistent frames in an accepted curve");
  }
}
void inspect(Src &s, const Trajectory &t) { inspect(s, t.curve()); }

// Moderate values only, so that a round trip is exact enough to compare
bool moderate(const Message &m) {
  const auto *d = m.GetDescriptor();
  const Reflection *r = m.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const FieldDescriptor *f = d->field(i);
    if (f->cpp_type() == FieldDescriptor::CPPTYPE_DOUBLE) {
      if (f->is_repeated()) {
        for (int k = 0; k < r->FieldSize(m, f); ++k)
          if (!(std::abs(r->GetRepeatedDouble(m, f, k)) < 1e6)) return false;
      } else if (!(std::abs(r->GetDouble(m, f)) < 1e6)) {
        return false;
      }
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) {
      if (f->is_repeated()) {
        for (int k = 0; k < r->FieldSize(m, f); ++k)
          if (!moderate(r->GetRepeatedMessage(m, f, k))) return false;
      } else if (r->HasField(m, f) && !moderate(r->GetMessage(m, f))) {
        return false;
      }
    }
  }
  return true;
}

template <typename T, typename Msg>
void unpack_checked(Src &s, const Msg &m) {
  const Verdict want = judge(m);
  s.note("verdict: ", want == Verdict::GOOD ? "valid" : want == Verdict::BAD ? "invalid" : "open", "\n", m.ShortDebugString());
  s.label(want == Verdict::GOOD ? "valid" : want == Verdict::BAD ? "invalid" : "open");
  std::vector<T> got;
  try {
    got.push_back(unpack(m));
  } catch (const AssertException &e) {
    PBT_CHECK(s, want != Verdict::GOOD, "a valid message was refused: ", e.what());
    return;
  }
  PBT_CHECK(s, want != Verdict::BAD, "an invalid message was accepted");
  inspect(s, got[0]);
  Msg again;
  pack(got[0], &again);
  if (want == Verdict::GOOD && moderate(m)) {
    const std::string d = differ(got[0], T{unpack(again)});
    PBT_CHECK(s, d.empty(), "an accepted message does not survive repacking: ", d);
  }
}

template <typename T, typename Msg>
void mutated(Src &s) {
  Msg m;
  pack(Make<T>::make(s), &m);
  const std::string before = m.SerializeAsString();
  const size_t n = 1 + s.below(4);
  for (size_t i = 0; i < n; ++i) mutate(s, &m);
  if (m.SerializeAsString() != before) s.nontrivial();
  unpack_checked<T>(s, m);
}

// A single change, and every id stays well formed
template <typename T, typename Msg>
void subtle(Src &s) {
  Msg m;
  pack(Make<T>::make(s), &m);
  const std::string before = m.SerializeAsString();
  mutate(s, &m, true);
  if (m.SerializeAsString() != before) s.nontrivial();
  unpack_checked<T>(s, m);
}

template <typename T, typename Msg>
void bytes(Src &s) {
  std::string b;
  if (s.chance(1, 5)) {
    b = s.text(60, true);
  } else {
    Msg m;
    pack(Make<T>::make(s), &m);
    b = damage(s, m.SerializeAsString());
  }
  Msg m;
  if (!m.ParseFromString(b)) return;
  s.nontrivial();
  unpack_checked<T>(s, m);
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C12",
      "messages of every packable type with 1-4 structured changes (fields cleared, resized, duplicated, swapped, set to "
      "NaN, infinities, huge and boundary values, broken id strings), with single changes that leave every id well formed, and byte strings damaged or random that still parse; "
      "a reference predicate over the message decides acceptance, accepted objects are inspected and repacked, under the "
      "address and undefined-behaviour sanitizers; non-trivial: the change altered the message / the damaged bytes parsed",
      {
          {"uuid", mutated<UUID, resim::proto::UUID>, 8000, 300000},
          {"frame", mutated<Frame, tp::Frame_3>, 5000, 200000},
          {"framed_vector", mutated<FramedVector, tp::FramedVector_3>, 8000, 300000},
          {"so3", mutated<SO3, tp::SO3>, 8000, 300000},
          {"se3", mutated<SE3, tp::SE3>, 10000, 300000},
          {"two_jetl_se3", mutated<JetL<SE3>, cp::TwoJetL_SE3>, 6000, 200000},
          {"two_jetl_so3", mutated<JetL<SO3>, cp::TwoJetL_SO3>, 6000, 200000},
          {"two_jetr_se3", mutated<JetR<SE3>, cp::TwoJetR_SE3>, 6000, 200000},
          {"two_jetr_so3", mutated<JetR<SO3>, cp::TwoJetR_SO3>, 6000, 200000},
          {"d_curve", mutated<DCurve, cp::DCurve_SE3>, 6000, 200000},
          {"t_curve_se3", mutated<TCurve<SE3>, cp::TCurve_SE3>, 6000, 200000},
          {"t_curve_so3", mutated<TCurve<SO3>, cp::TCurve_SO3>, 6000, 200000},
          {"trajectory", mutated<Trajectory, sp::Trajectory>, 8000, 250000},
          {"subtle_framed_vector", subtle<FramedVector, tp::FramedVector_3>, 8000, 300000},
          {"subtle_so3", subtle<SO3, tp::SO3>, 8000, 300000},
          {"subtle_se3", subtle<SE3, tp::SE3>, 10000, 300000},
          {"subtle_two_jetl_se3", subtle<JetL<SE3>, cp::TwoJetL_SE3>, 6000, 200000},
          {"subtle_two_jetl_so3", subtle<JetL<SO3>, cp::TwoJetL_SO3>, 6000, 200000},
          {"subtle_two_jetr_se3", subtle<JetR<SE3>, cp::TwoJetR_SE3>, 6000, 200000},
          {"subtle_two_jetr_so3", subtle<JetR<SO3>, cp::TwoJetR_SO3>, 6000, 200000},
          {"subtle_d_curve", subtle<DCurve, cp::DCurve_SE3>, 6000, 200000},
          {"subtle_t_curve_se3", subtle<TCurve<SE3>, cp::TCurve_SE3>, 6000, 200000},
          {"subtle_t_curve_so3", subtle<TCurve<SO3>, cp::TCurve_SO3>, 6000, 200000},
          {"subtle_trajectory", subtle<Trajectory, sp::Trajectory>, 8000, 250000},
          {"bytes_se3", bytes<SE3, tp::SE3>, 8000, 300000},
          {"bytes_jet", bytes<JetR<SE3>, cp::TwoJetR_SE3>, 6000, 200000},
          {"bytes_d_curve", bytes<DCurve, cp::DCurve_SE3>, 6000, 200000},
          {"bytes_t_curve", bytes<TCurve<SO3>, cp::TCurve_SO3>, 6000, 200000},
          {"bytes_trajectory", bytes<Trajectory, sp::Trajectory>, 8000, 200000},
      },
      {"whether non-finite or astronomically large numbers are refused is left open; crashing on them is not",
       "curves whose first point is unframed make no promise about the frames of later points"}};
}
