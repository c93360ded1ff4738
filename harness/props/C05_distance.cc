// C05: distance between poses.
// @quick_scale: 15
#include "gen.hh"

namespace {
using namespace gen;
using resim::transforms::se3_distance;
using resim::transforms::se3_inverse_distance;

void distance(Src &s) {
  const auto fr = frames(s, 3);
  const bool framed = !s.chance(1, 4);
  SE3 a = se3(s);
  SE3 b = se3(s);
  SE3 ref = se3(s);
  if (framed) {
    a.set_frames(fr[0], fr[2]);
    b.set_frames(fr[1], fr[2]);
  }
  s.note("a_from_ref=", show(a), " b_from_ref=", show(b), framed ? " framed" : " unframed");
  const double sc = 1 + a.translation().norm() + b.translation().norm();
  const double tol = 1e-12 * sc;
  if ((a.rotation().rotation_matrix() - b.rotation().rotation_matrix()).norm() > 1e-3) {
    s.nontrivial();
  }
  const double want = (a * b.inverse()).translation().norm();
  PBT_CHECK(s, std::abs(want - (b * a.inverse()).translation().norm()) <= tol, "composition is asymmetric");
  PBT_CHECK(s, std::abs(se3_distance(a, b) - want) <= tol, "distance ", se3_distance(a, b), " but |a_from_b|=", want);
  PBT_CHECK(s, std::abs(se3_distance(b, a) - want) <= tol, "distance is not symmetric");
  PBT_CHECK(s, std::abs(se3_inverse_distance(a.inverse(), b.inverse()) - want) <= tol,
            "inverse distance ", se3_inverse_distance(a.inverse(), b.inverse()), " but |a_from_b|=", want);
  PBT_CHECK(s, std::abs(se3_inverse_distance(b.inverse(), a.inverse()) - want) <= tol, "inverse distance is not symmetric");
  PBT_CHECK(s, se3_distance(a, a) <= tol && se3_inverse_distance(a, a) <= tol, "distance to itself is not zero");
  // The choice of reference does not matter
  SE3 r{ref};
  if (framed) {
    const Frame other = frames(s, 1)[0];
    r.set_frames(fr[2], other == fr[2] ? fr[0] : other);
  }
  const double tol2 = 1e-12 * (sc + ref.translation().norm());
  PBT_CHECK(s, std::abs(se3_distance(a * r, b * r) - want) <= tol2, "distance depends on the reference");
  PBT_CHECK(s, std::abs(se3_inverse_distance((a * r).inverse(), (b * r).inverse()) - want) <= tol2,
            "inverse distance depends on the reference");
}

// Poses close to a common reference are as far apart as their translations say, however small those are
void small(Src &s) {
  const double size = log_uniform(s, 1e-60, 1.);
  const SO3 ra = so3(s);
  const SO3 rb = s.coin() ? ra : so3(s);
  const Vec3 ta = s.chance(1, 4) ? Vec3::Zero() : Vec3(s.uniform(0, 1) * direction(s));
  const Vec3 tb = s.uniform(0.1, 1) * direction(s);
  const SE3 a{ra, Vec3(size * ta)};
  const SE3 b{rb, Vec3(size * tb)};
  s.note("a_from_ref=", show(a), " b_from_ref=", show(b), " size ", size);
  s.nontrivial();
  const Eigen::Matrix3d ma = ra.rotation_matrix();
  const Eigen::Matrix3d mb = rb.rotation_matrix();
  const double want = size * (ma.transpose() * ta - mb.transpose() * tb).norm();
  const double inv = size * (ta - tb).norm();
  const double tol = 1e-12 * size;
  PBT_CHECK(s, std::abs(se3_distance(a, b) - want) <= tol, "distance ", se3_distance(a, b), " but the origins are ", want, " apart");
  PBT_CHECK(s, std::abs(se3_distance(b, a) - want) <= tol, "distance is not symmetric");
  PBT_CHECK(s, std::abs(se3_inverse_distance(a, b) - inv) <= tol, "inverse distance ", se3_inverse_distance(a, b), " but the origins are ", inv, " apart");
  PBT_CHECK(s, std::abs(se3_inverse_distance(b, a) - inv) <= tol, "inverse distance is not symmetric");
}

void frames_checked(Src &s) {
  const auto fr = frames(s, 4);
  const auto pick = [&]() -> Frame { return fr[s.below(4)]; };
  SE3 a = se3(s);
  SE3 b = se3(s);
  const bool fa = !s.chance(1, 4);
  const bool fb = !s.chance(1, 4);
  if (fa) {
    const Frame into = pick();
    a.set_frames(into, pick());
  }
  if (fb) {
    const Frame into = pick();
    b.set_frames(into, pick());
  }
  const bool from_ok = a.from().id().id() == b.from().id().id();
  const bool into_ok = a.into().id().id() == b.into().id().id();
  s.note("from frames match: ", from_ok, " into frames match: ", into_ok, " framed ", fa, fb);
  if (from_ok != into_ok) {
    s.nontrivial();
  }
  PBT_CHECK(s, pbt::throws<AssertException>([&] { se3_distance(a, b); }) == !from_ok, "distance frame check");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { se3_inverse_distance(a, b); }) == !into_ok, "inverse distance frame check");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C05",
      "pairs of poses with independent rotations (0..pi) and translations (1e-9..1e6), framed and unframed, compared with "
      "the translation of the composed relative pose; poses as close as 1e-60, relative to their own size; frame tuples drawn from a pool of similar ids; non-trivial: the "
      "rotations differ / exactly one of the two frame agreements holds",
      {
          {"distance", distance, 60000, 2000000},
          {"small", small, 20000, 500000},
          {"frames", frames_checked, 20000, 500000},
      },
      {}};
}
