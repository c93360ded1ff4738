// Generators and comparisons for everything that can be packed into a message.
#pragma once

#include <cstring>

#include "jets.hh"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/curves/t_curve.hh"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/proto/uuid_to_proto.hh"

namespace gen {
using DCurve = resim::curves::DCurve<SE3>;
template <typename G>
using TCurve = resim::curves::TCurve<G>;
using resim::actor::state::Trajectory;
using resim::time::Duration;
using resim::time::Timestamp;

// What frames an object carries: none, two different ones, or the same twice
struct Framing {
  Frame into;
  Frame from;
  bool framed() const { return !into.is_null(); }
};
inline Framing framing(Src &s) {
  switch (s.weighted({2, 5, 1})) {
    case 0:
      return {};
    case 1: {
      const auto f = frames(s, 2);
      return {f[0], f[1]};
    }
    default: {
      const auto f = frames(s, 1);
      return {f[0], f[0]};
    }
  }
}
template <typename G>
G framed(G g, const Framing &f) {
  if (f.framed()) g.set_frames(f.into, f.from);
  return g;
}

inline double any_real(Src &s) {
  switch (s.weighted({4, 2, 2})) {
    case 0:
      return s.symmetric(10);
    case 1:
      return (s.coin() ? -1. : 1.) * log_uniform(s, 1e-12, 1e12);
    default:
      return s.pick(std::vector<double>{0., -0., 1., -1., 1e-300, 1e300, std::numeric_limits<double>::max(),
                                        std::numeric_limits<double>::denorm_min(), 0.1});
  }
}

template <typename G>
typename G::TangentVector any_tangent(Src &s) {
  typename G::TangentVector v;
  for (int i = 0; i < v.size(); ++i) v[i] = any_real(s);
  return v;
}

// ---- objects ----
template <typename T>
struct Make;

template <>
struct Make<UUID> {
  static UUID make(Src &s) { return s.chance(1, 8) ? UUID{} : uuid(s); }
};
template <>
struct Make<Frame> {
  static Frame make(Src &s) { return Frame{Make<UUID>::make(s)}; }
};
template <>
struct Make<FramedVector> {
  static FramedVector make(Src &s) {
    const Vec3 v{any_real(s), any_real(s), any_real(s)};
    return s.chance(1, 6) ? FramedVector{v, Frame::null_frame()} : FramedVector{v, frames(s, 1)[0]};
  }
};
template <>
struct Make<SO3> {
  static SO3 make(Src &s) {
    SO3 g = so3(s);
    return framed(g, framing(s));
  }
};
template <>
struct Make<SE3> {
  static SE3 make(Src &s) {
    SE3 g = se3(s);
    return framed(g, framing(s));
  }
};
template <typename G>
struct Make<JetL<G>> {
  static JetL<G> make(Src &s, const Framing &f) {
    G g = group<G>(s, 1e4);
    auto d = any_tangent<G>(s);
    auto d2 = any_tangent<G>(s);
    return JetL<G>{framed(g, f), d, d2};
  }
  static JetL<G> make(Src &s) { return make(s, framing(s)); }
};
template <typename G>
struct Make<JetR<G>> {
  static JetR<G> make(Src &s) {
    G g = group<G>(s, 1e4);
    auto d = any_tangent<G>(s);
    auto d2 = any_tangent<G>(s);
    return JetR<G>{framed(g, framing(s)), d, d2};
  }
};
template <>
struct Make<DCurve> {
  static DCurve make(Src &s) {
    DCurve out;
    const Framing f = framing(s);
    const size_t n = s.count(7, 80);
    for (size_t i = 0; i < n; ++i) out.append(framed(se3(s, 1e4), f));
    return out;
  }
};
template <typename G>
struct Make<TCurve<G>> {
  static TCurve<G> make(Src &s, bool from_zero = false, const Framing *given = nullptr) {
    TCurve<G> out;
    const Framing f = given != nullptr ? *given : framing(s);
    const size_t n = s.count(7, 80);
    double t = from_zero ? 0. : s.pick(std::vector<double>{0., 1., -3.5, 1e-3, 1.6e9, s.symmetric(1e5)});
    for (size_t i = 0; i < n; ++i) {
      G g = group<G>(s, 100);
      auto d = tangent<G>(s, 100);
      auto d2 = tangent<G>(s, 100);
      out.append({t, JetL<G>{framed(g, f), d, d2}});
      t += s.coin() ? s.uniform(1e-2, 10) : log_uniform(s, 1e-4, 1e4);
    }
    return out;
  }
};
template <>
struct Make<Trajectory> {
  static Timestamp start(Src &s) {
    const int64_t top = std::numeric_limits<int64_t>::max();
    switch (s.weighted({1, 3, 2, 1, 1})) {
      case 0:
        return Timestamp{Duration{s.range(0, 1'000'000'000)}};
      case 1:
        return Timestamp{Duration{s.range(1'600'000'000'000'000'000, 1'900'000'000'000'000'000)}};
      case 2:
        return Timestamp{Duration{s.range(-5'000'000'000, 5'000'000'000)}};
      case 3:
        return Timestamp{Duration{s.pick(std::vector<int64_t>{0, 1, -1, 999'999'999, 1'000'000'000, -999'999'999, -1'000'000'000,
                                                              top, -top, std::numeric_limits<int64_t>::min()})}};
      default:
        return Timestamp{Duration{s.range(-top, top)}};
    }
  }
  static Trajectory make(Src &s) {
    auto curve = Make<TCurve<SE3>>::make(s, true);
    return Trajectory{curve, start(s)};
  }
};

// ---- comparison: an empty string, or what differs ----
inline bool identical(double a, double b) { return std::memcmp(&a, &b, sizeof(a)) == 0; }
template <typename M>
bool identical(const M &a, const M &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!identical(a(i, j), b(i, j))) return false;
  return true;
}

inline std::string differ(const UUID &a, const UUID &b) { return a.id() == b.id() ? "" : "ids differ"; }
inline std::string differ(const Frame &a, const Frame &b) { return differ(a.id(), b.id()).empty() ? "" : "frames differ"; }
inline std::string differ(const FramedVector &a, const FramedVector &b) {
  if (!identical(Vec3(a.vector()), Vec3(b.vector()))) return "vectors differ";
  return differ(a.frame(), b.frame());
}
template <typename G>
std::string differ_group(const G &a, const G &b) {
  const double tol = 1e-10 * (1 + matrix_of(a).cwiseAbs().maxCoeff());
  if (!close(matrix_of(a), matrix_of(b), tol)) return "transforms differ: " + show(a) + " and " + show(b);
  // What is small is not lost either
  const Eigen::MatrixXd ma = matrix_of(a);
  const Eigen::MatrixXd mb = matrix_of(b);
  if (ma.block(0, 0, 3, 3).trace() > 0) {
    const Eigen::Matrix3d oa = (ma.block(0, 0, 3, 3) - ma.block(0, 0, 3, 3).transpose()) / 2;
    const Eigen::Matrix3d ob = (mb.block(0, 0, 3, 3) - mb.block(0, 0, 3, 3).transpose()) / 2;
    if (!((oa - ob).norm() <= 1e-10 * oa.norm())) return "small rotations differ: " + show(a) + " and " + show(b);
  }
  if constexpr (std::is_same_v<G, SE3>) {
    if (!((a.translation() - b.translation()).norm() <= 1e-10 * a.translation().norm())) return "small translations differ: " + show(a) + " and " + show(b);
  }
  if (!differ(a.into(), b.into()).empty()) return "into frames differ";
  if (!differ(a.from(), b.from()).empty()) return "from frames differ";
  return "";
}
inline std::string differ(const SO3 &a, const SO3 &b) { return differ_group(a, b); }
inline std::string differ(const SE3 &a, const SE3 &b) { return differ_group(a, b); }
template <typename G>
std::string differ(const JetL<G> &a, const JetL<G> &b) {
  const std::string d = differ(a.frame_from_ref(), b.frame_from_ref());
  if (!d.empty()) return d;
  if (!identical(a.d_frame_from_ref(), b.d_frame_from_ref())) return "first derivatives differ";
  if (!identical(a.d2_frame_from_ref(), b.d2_frame_from_ref())) return "second derivatives differ";
  return "";
}
template <typename G>
std::string differ(const JetR<G> &a, const JetR<G> &b) {
  const std::string d = differ(a.ref_from_frame(), b.ref_from_frame());
  if (!d.empty()) return d;
  if (!identical(a.d_ref_from_frame(), b.d_ref_from_frame())) return "first derivatives differ";
  if (!identical(a.d2_ref_from_frame(), b.d2_ref_from_frame())) return "second derivatives differ";
  return "";
}
inline std::string differ(const DCurve &a, const DCurve &b) {
  if (a.control_pts().size() != b.control_pts().size()) return "numbers of control points differ";
  if (a.segments().size() != b.segments().size()) return "numbers of segments differ";
  for (size_t i = 0; i < a.control_pts().size(); ++i) {
    const std::string d = differ(*a.control_pts()[i].ref_from_control, *b.control_pts()[i].ref_from_control);
    if (!d.empty()) return "control point " + std::to_string(i) + ": " + d;
  }
  return "";
}
template <typename G>
std::string differ(const TCurve<G> &a, const TCurve<G> &b) {
  if (a.control_pts().size() != b.control_pts().size()) return "numbers of control points differ";
  if (a.segments().size() != b.segments().size()) return "numbers of segments differ";
  for (size_t i = 0; i < a.control_pts().size(); ++i) {
    if (!identical(a.control_pts()[i].time, b.control_pts()[i].time)) return "times of control point " + std::to_string(i) + " differ";
    const std::string d = differ(a.control_pts()[i].point, b.control_pts()[i].point);
    if (!d.empty()) return "control point " + std::to_string(i) + ": " + d;
  }
  return "";
}
inline std::string differ(const Trajectory &a, const Trajectory &b) {
  if (a.start_time() != b.start_time()) {
    return "start times differ: " + std::to_string(a.start_time().time_since_epoch().count()) + " and " +
           std::to_string(b.start_time().time_since_epoch().count());
  }
  return differ(a.curve(), b.curve());
}

// ---- description ----
inline std::string show(const UUID &u) { return u.to_string(); }
inline std::string show(const Frame &f) { return f.id().to_string(); }
inline std::string show(const FramedVector &v) { return show(Eigen::MatrixXd(v.vector())) + " in " + show(v.frame()); }
inline std::string show(const DCurve &c) {
  std::string out = "DCurve of " + std::to_string(c.control_pts().size());
  for (const auto &p : c.control_pts()) {
    out += "\n " + show(*p.ref_from_control) + " " + show(p.ref_from_control->into()) + "<-" + show(p.ref_from_control->from());
  }
  return out;
}
template <typename G>
std::string show(const TCurve<G> &c) {
  std::ostringstream ss;
  ss.precision(17);
  ss << "TCurve of " << c.control_pts().size();
  for (const auto &p : c.control_pts()) {
    ss << "\n t=" << p.time << " " << show(p.point) << " " << show(p.point.frame_from_ref().into()) << "<-"
       << show(p.point.frame_from_ref().from());
  }
  return ss.str();
}
inline std::string show(const Trajectory &t) {
  return "Trajectory from " + std::to_string(t.start_time().time_since_epoch().count()) + "ns " + show(t.curve());
}

inline bool interesting(const UUID &u) { return !u.is_null(); }
inline bool interesting(const Frame &f) { return !f.is_null(); }
inline bool interesting(const FramedVector &v) { return v.vector() != Vec3::Zero() && !v.frame().is_null(); }
inline bool interesting(const SO3 &g) { return g.is_framed() && g.log().norm() > 0; }
inline bool interesting(const SE3 &g) { return g.is_framed() && g.log().norm() > 0; }
template <typename G>
bool interesting(const JetL<G> &j) {
  return interesting(j.frame_from_ref());
}
template <typename G>
bool interesting(const JetR<G> &j) {
  return interesting(j.ref_from_frame());
}
inline bool interesting(const DCurve &c) { return c.control_pts().size() > 1; }
template <typename G>
bool interesting(const TCurve<G> &c) {
  return c.control_pts().size() > 1;
}
inline bool interesting(const Trajectory &t) { return interesting(t.curve()) && t.start_time() != Timestamp{}; }
}  // namespace gen
