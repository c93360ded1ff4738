// C11: messages carry objects without loss.
// @quick_scale: 4
#include "protos.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/utils/inout.hh"

namespace {
using namespace gen;
namespace tp = resim::transforms::proto;
namespace cp = resim::curves::proto;
namespace sp = resim::actor::state::proto;

// ---- what the fields of a message must say about the object ----
std::string means(const UUID &u, const resim::proto::UUID &m) {
  static const char *const HEX = "0123456789abcdef";
  std::string want;
  for (size_t i = 0; i < 16; ++i) {
    if (i == 4 || i == 6 || i == 8 || i == 10) want += '-';
    want += HEX[u.id()[i] >> 4U];
    want += HEX[u.id()[i] & 15U];
  }
  std::string got = m.data();
  for (auto &c : got) c = static_cast<char>(std::tolower(c));
  return got == want ? "" : "the id field says " + m.data() + " for " + want;
}
std::string means(const Frame &f, const tp::Frame_3 &m) { return means(f.id(), m.id()); }
std::string means(const FramedVector &v, const tp::FramedVector_3 &m) {
  if (m.algebra_size() != 3) return "wrong number of components";
  for (int i = 0; i < 3; ++i)
    if (!identical(m.algebra(i), v.vector()[i])) return "component " + std::to_string(i);
  return means(v.frame(), m.frame());
}
template <typename G, typename M>
std::string means_group(const G &g, const M &m) {
  if (m.algebra_size() != static_cast<int>(G::DOF)) return "wrong number of algebra components";
  typename G::TangentVector v;
  for (unsigned i = 0; i < G::DOF; ++i) v[i] = m.algebra(i);
  const Eigen::MatrixXd want = ref_expm(hat(v)).template cast<double>();
  if (!close(want, matrix_of(g), 1e-10 * (1 + v.norm() + matrix_of(g).cwiseAbs().maxCoeff()))) return "the algebra field does not denote the transform";
  const std::string d = means(g.into(), m.into());
  return d.empty() ? means(g.from(), m.from()) : d;
}
std::string means(const SO3 &g, const tp::SO3 &m) { return means_group(g, m); }
std::string means(const SE3 &g, const tp::SE3 &m) { return means_group(g, m); }
template <typename V, typename R>
bool components(const V &v, const R &r) {
  if (r.size() != v.size()) return false;
  for (int i = 0; i < v.size(); ++i)
    if (!identical(v[i], r.Get(i))) return false;
  return true;
}
template <typename G, typename M>
std::string means_jetl(const JetL<G> &j, const M &m) {
  if (!components(j.d_frame_from_ref(), m.d_frame_from_ref())) return "the first derivative field";
  if (!components(j.d2_frame_from_ref(), m.d2_frame_from_ref())) return "the second derivative field";
  return means(j.frame_from_ref(), m.frame_from_ref());
}
template <typename G, typename M>
std::string means_jetr(const JetR<G> &j, const M &m) {
  if (!components(j.d_ref_from_frame(), m.d_ref_from_frame())) return "the first derivative field";
  if (!components(j.d2_ref_from_frame(), m.d2_ref_from_frame())) return "the second derivative field";
  return means(j.ref_from_frame(), m.ref_from_frame());
}
std::string means(const JetL<SE3> &j, const cp::TwoJetL_SE3 &m) { return means_jetl(j, m); }
std::string means(const JetL<SO3> &j, const cp::TwoJetL_SO3 &m) { return means_jetl(j, m); }
std::string means(const JetR<SE3> &j, const cp::TwoJetR_SE3 &m) { return means_jetr(j, m); }
std::string means(const JetR<SO3> &j, const cp::TwoJetR_SO3 &m) { return means_jetr(j, m); }
std::string means(const DCurve &c, const cp::DCurve_SE3 &m) {
  if (m.ref_from_control_size() != static_cast<int>(c.control_pts().size())) return "number of points";
  for (int i = 0; i < m.ref_from_control_size(); ++i) {
    const std::string d = means(*c.control_pts()[i].ref_from_control, m.ref_from_control(i));
    if (!d.empty()) return "point " + std::to_string(i) + ": " + d;
  }
  return "";
}
template <typename G, typename M>
std::string means_tcurve(const TCurve<G> &c, const M &m) {
  if (m.points_size() != static_cast<int>(c.control_pts().size())) return "number of points";
  for (int i = 0; i < m.points_size(); ++i) {
    if (!identical(m.points(i).time(), c.control_pts()[i].time)) return "time of point " + std::to_string(i);
    const std::string d = means(c.control_pts()[i].point, m.points(i).point());
    if (!d.empty()) return "point " + std::to_string(i) + ": " + d;
  }
  return "";
}
std::string means(const TCurve<SE3> &c, const cp::TCurve_SE3 &m) { return means_tcurve(c, m); }
std::string means(const TCurve<SO3> &c, const cp::TCurve_SO3 &m) { return means_tcurve(c, m); }
std::string means(const Trajectory &t, const sp::Trajectory &m) {
  const __int128 ns = static_cast<__int128>(m.start_time().seconds()) * 1'000'000'000 + m.start_time().nanos();
  if (ns != t.start_time().time_since_epoch().count()) return "the start time field";
  return means(t.curve(), m.curve());
}

template <typename T, typename Msg>
void round_trip(Src &s) {
  const T x = Make<T>::make(s);
  s.note("object: ", show(x));
  if (interesting(x)) s.nontrivial();
  Msg m;
  pack(x, &m);
  const std::string meaning = means(x, m);
  PBT_CHECK(s, meaning.empty(), "message does not carry the object: ", meaning);
  const T direct = unpack(m);
  std::string d = differ(x, direct);
  PBT_CHECK(s, d.empty(), "unpacked object differs: ", d);
  // Over the wire
  const std::string bytes = m.SerializeAsString();
  Msg received;
  PBT_CHECK(s, received.ParseFromString(bytes), "the serialized message does not parse");
  d = differ(x, unpack(received));
  PBT_CHECK(s, d.empty(), "object unpacked from bytes differs: ", d);
  // Into a message that already holds something else
  Msg used;
  const size_t earlier = 1 + s.below(2);
  for (size_t i = 0; i < earlier; ++i) pack(Make<T>::make(s), &used);
  pack(x, &used);
  PBT_CHECK(s, used.SerializeAsString() == bytes, "packing into a used message leaves something of the former object behind");
  // Twice more
  Msg again;
  pack(direct, &again);
  d = differ(x, unpack(again));
  PBT_CHECK(s, d.empty(), "second generation differs: ", d);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { pack(x, static_cast<Msg *>(nullptr)); }), "packing into a null message is not refused");
}

template <typename M>
M random_matrix(Src &s, int rows, int cols) {
  M m(rows, cols);
  for (int i = 0; i < rows; ++i) {
    for (int j = 0; j < cols; ++j) {
      m(i, j) = s.chance(1, 10) ? s.pick(std::vector<double>{std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                                                             std::numeric_limits<double>::quiet_NaN()})
                                : any_real(s);
    }
  }
  return m;
}

template <typename M>
void matrix_case(Src &s, int rows, int cols) {
  const M m = random_matrix<M>(s, rows, cols);
  s.note(rows, "x", cols, " ", show(Eigen::MatrixXd(m)));
  google::protobuf::RepeatedField<double> field;
  if (s.coin()) {
    const size_t n = s.below(20);
    for (size_t i = 0; i < n; ++i) field.Add(42);
  }
  resim::math::proto::pack_matrix(m, &field);
  PBT_CHECK(s, field.size() == rows * cols, "wrong number of elements packed");
  M out(rows, cols);
  out.setConstant(7);
  resim::math::proto::unpack_matrix(field, resim::InOut(out));
  PBT_CHECK(s, identical(m, out), "matrix changed: ", show(Eigen::MatrixXd(out)));
  // A field of another size
  auto bad = field;
  if (bad.size() > 0 && s.coin()) {
    bad.RemoveLast();
  } else {
    bad.Add(1);
  }
  M other(rows, cols);
  other.setConstant(7);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { resim::math::proto::unpack_matrix(bad, resim::InOut(other)); }), "a field of the wrong size is accepted");
  PBT_CHECK(s, other.rows() == rows && other.cols() == cols, "the output was resized");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { resim::math::proto::pack_matrix(m, static_cast<google::protobuf::RepeatedField<double> *>(nullptr)); }),
            "packing into a null field is not refused");
  if (rows > 1 && cols > 1) s.nontrivial();
}

void matrices(Src &s) {
  const int r = static_cast<int>(s.range(1, 6));
  const int c = static_cast<int>(s.range(1, 6));
  using Eigen::Dynamic;
  switch (s.below(7)) {
    case 0:
      return matrix_case<Eigen::MatrixXd>(s, r, c);
    case 1:
      return matrix_case<Eigen::Matrix<double, Dynamic, Dynamic, Eigen::RowMajor>>(s, r, c);
    case 2:
      return matrix_case<Eigen::Matrix<double, 3, 2>>(s, 3, 2);
    case 3:
      return matrix_case<Eigen::Matrix<double, 2, 5, Eigen::RowMajor>>(s, 2, 5);
    case 4:
      return matrix_case<Eigen::Matrix<double, 6, 1>>(s, 6, 1);
    case 5:
      return matrix_case<Eigen::Matrix<double, 4, Dynamic>>(s, 4, c);
    default:
      return matrix_case<Eigen::Matrix<double, 1, 4>>(s, 1, 4);
  }
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C11",
      "random objects of every packable type (ids, frames, framed vectors, rotations at every angle up to pi, poses up to "
      "1e6 m, left and right jets, distance and time curves of 0-6 points, trajectories with start times over the whole "
      "64-bit range), packed into a fresh message, into a used one, through bytes and back, with the message's fields "
      "compared with the object; non-trivial: framed and not the identity, more than one control point, a set start time",
      {
          {"uuid", round_trip<UUID, resim::proto::UUID>, 4000, 200000},
          {"frame", round_trip<Frame, tp::Frame_3>, 3000, 100000},
          {"framed_vector", round_trip<FramedVector, tp::FramedVector_3>, 4000, 200000},
          {"so3", round_trip<SO3, tp::SO3>, 8000, 400000},
          {"se3", round_trip<SE3, tp::SE3>, 8000, 400000},
          {"two_jetl_se3", round_trip<JetL<SE3>, cp::TwoJetL_SE3>, 4000, 200000},
          {"two_jetl_so3", round_trip<JetL<SO3>, cp::TwoJetL_SO3>, 4000, 200000},
          {"two_jetr_se3", round_trip<JetR<SE3>, cp::TwoJetR_SE3>, 4000, 200000},
          {"two_jetr_so3", round_trip<JetR<SO3>, cp::TwoJetR_SO3>, 4000, 200000},
          {"d_curve", round_trip<DCurve, cp::DCurve_SE3>, 3000, 100000},
          {"t_curve_se3", round_trip<TCurve<SE3>, cp::TCurve_SE3>, 3000, 100000},
          {"t_curve_so3", round_trip<TCurve<SO3>, cp::TCurve_SO3>, 3000, 100000},
          {"trajectory", round_trip<Trajectory, sp::Trajectory>, 4000, 150000},
          {"matrix", matrices, 6000, 200000},
      },
      {"poses compare within 1e-10 of their magnitude, everything else bit for bit"}};
}
