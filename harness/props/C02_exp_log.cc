// C02: exponential, logarithm, interpolation and arc length.
// @quick_scale: 4
#include "gen.hh"

namespace {
using namespace gen;

template <typename G>
using Tangent = typename G::TangentVector;

Vec3 alg_of(Src &s, const SO3 *, bool below_pi) { return so3_alg(s, below_pi); }
Vec6 alg_of(Src &s, const SE3 *, bool below_pi) { return se3_alg(s, below_pi, 1e4); }

Vec3 rot_part(const Vec3 &x) { return x; }
Vec3 rot_part(const Vec6 &x) { return x.head<3>(); }
double trans_scale(const Vec3 &) { return 1; }
double trans_scale(const Vec6 &x) { return 1 + x.tail<3>().norm(); }

// Reference translational part (V * t) and rotation from the matrix exponential.
template <typename T>
Eigen::MatrixXd ref_exp(const T &x) {
  return ref_expm(hat(x)).template cast<double>();
}

template <typename G>
void exp_matches(Src &s) {
  Tangent<G> x = alg_of(s, static_cast<G *>(nullptr), false);
  if (s.chance(1, 4)) {  // Beyond pi: the exponential is defined for all algebra elements
    const double k = s.uniform(1, 5);
    x *= k;
  }
  s.note("x=", show(Eigen::MatrixXd(x)));
  const double tol = 2e-12 * trans_scale(x);
  if (rot_part(x).norm() > 0) {
    s.nontrivial();
  }
  const G g = G::exp(x);
  PBT_CHECK(s, close(matrix_of(g), ref_exp(x), tol), "exp(x)=", show(g), " expected ", show(ref_exp(x)));
  PBT_CHECK(s, close(matrix_of(G::exp(-x)), matrix_of(g.inverse()), tol), "exp(-x) is not the inverse of exp(x)");
  const double a = s.symmetric(2.);
  const double b = s.symmetric(2.);
  PBT_CHECK(
      s,
      close(matrix_of(G::exp(a * x) * G::exp(b * x)), matrix_of(G::exp((a + b) * x)), 1e-11 * trans_scale(x)),
      "not a one-parameter subgroup; a=", a, " b=", b);
  const auto fr = frames(s, 2);
  PBT_CHECK(s, close(matrix_of(G::exp(x, fr[0], fr[1])), matrix_of(g), tol), "framed exponential differs");
}

template <typename G>
void log_inverts(Src &s) {
  const Tangent<G> x = alg_of(s, static_cast<G *>(nullptr), false);
  s.note("x=", show(Eigen::MatrixXd(x)));
  const double th = rot_part(x).norm();
  if (th > 0) {
    s.nontrivial();
  }
  s.label(th < 2e-3 ? "tiny angle" : th > 3 ? "large angle" : "mid angle");
  const G g = G::exp(x);
  const Tangent<G> l = g.log();
  PBT_CHECK(s, rot_part(l).norm() <= M_PI + 1e-9, "log is not in the principal range: ", show(Eigen::MatrixXd(l)));
  PBT_CHECK(s, close(matrix_of(G::exp(l)), matrix_of(g), 1e-11 * trans_scale(x)), "exp(log(g)) != g; log=", show(Eigen::MatrixXd(l)));
  // The translational part is ill-conditioned in the angle only through the
  // rotation, so the absolute error grows with the translation only.
  const double gap = M_PI - th;
  if (gap > 1e-3) {
    PBT_CHECK(s, close(l, x, 1e-11 * trans_scale(x)), "log(exp(x)) != x; log=", show(Eigen::MatrixXd(l)));
  } else if (gap > 1e-7) {
    PBT_CHECK(s, close(l, x, 1e-7 * trans_scale(x)), "log(exp(x)) != x; log=", show(Eigen::MatrixXd(l)));
  }
  // log of an element built without exp
  G h = g;
  if constexpr (std::is_same_v<G, SO3>) {
    h = SO3{rotation_matrix(so3_alg(s))};
  } else {
    h = se3(s, 1e4);
  }
  const Tangent<G> lh = h.log();
  const double sc = 1 + matrix_of(h).cwiseAbs().maxCoeff() + lh.norm();
  PBT_CHECK(s, close(ref_exp(lh), matrix_of(h), 1e-11 * sc), "matrix exponential of log(h) is not h; h=", show(h), " log=", show(Eigen::MatrixXd(lh)));
  PBT_CHECK(s, rot_part(lh).norm() <= M_PI + 1e-9, "log is not in the principal range");
}

// What is small is not lost: small rotations and translations are accurate
// relative to themselves, not only to the size of the matrix.
template <typename G>
void small(Src &s) {
  Vec3 w = log_uniform(s, 1e-60, 1e-3) * direction(s);
  if constexpr (std::is_same_v<G, SE3>) {
    if (s.chance(1, 3)) w = so3_alg(s, true);  // Any rotation, with a small translation
  }
  const double th = w.norm();
  Vec3 u = s.chance(1, 4) ? Vec3::Zero() : Vec3(log_uniform(s, 1e-60, 1e3) * direction(s));
  const double size = u.norm();
  Tangent<G> x;
  if constexpr (std::is_same_v<G, SE3>) {
    x << w, u;
  } else {
    x = w;
  }
  s.note("x=", show(Eigen::MatrixXd(x)));
  s.nontrivial();
  const G g = G::exp(x);
  const Tangent<G> l = g.log();
  const Eigen::MatrixXd m = matrix_of(g);
  const bool few = th > 0 && th <= 1e-3;
  if (few) {
    // Half of R - R^T is sin(theta) / theta times the rotation vector
    const Vec3 odd = Vec3(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)) / 2;
    const double sinc = 1 - th * th / 6 + th * th * th * th / 120;
    PBT_CHECK(s, (odd - sinc * w).norm() <= 1e-12 * th, "the exponential of a small rotation by ", th, " turns by ", show(Eigen::MatrixXd(odd)));
    PBT_CHECK(s, (rot_part(l) - w).norm() <= 1e-11 * th, "the logarithm of a small rotation is ", show(Eigen::MatrixXd(l)));
    PBT_CHECK(s, (rot_part(g.interp(0.5).log()) - 0.5 * w).norm() <= 1e-11 * th, "half of a small rotation is not half of it");
    PBT_CHECK(s, (rot_part(g.inverse().log()) + w).norm() <= 1e-11 * th, "the inverse of a small rotation is not the opposite one");
  }
  if constexpr (std::is_same_v<G, SE3>) {
    const Eigen::MatrixXd want = ref_exp(Vec6((Vec6() << w, size > 0 ? Vec3(u / size) : u).finished()));
    PBT_CHECK(s, (g.translation() - size * want.block(0, 3, 3, 1)).norm() <= 1e-11 * size, "the translation of a small motion is ", show(Eigen::MatrixXd(g.translation())));
    if (M_PI - th > 1e-3) {
      PBT_CHECK(s, (l.template tail<3>() - u).norm() <= 1e-10 * size, "the logarithm of a small motion is ", show(Eigen::MatrixXd(l)));
      PBT_CHECK(s, std::abs(g.arc_length() - size) <= 1e-10 * size, "the arc length of a small motion of ", size, " is ", g.arc_length());
    }
  }
}

template <typename G>
void interpolate(Src &s) {
  const Tangent<G> x = alg_of(s, static_cast<G *>(nullptr), true);
  const double th = rot_part(x).norm();
  if (M_PI - th < 1e-3) {
    throw pbt::Discard{};
  }
  const G g = G::exp(x);
  double f = 0;
  switch (s.weighted({1, 1, 6, 3})) {
    case 0:
      f = 0;
      break;
    case 1:
      f = 1;
      break;
    case 2:
      f = s.unit();
      break;
    default:
      f = s.uniform(-5, 5);
  }
  s.note("x=", show(Eigen::MatrixXd(x)), " fraction=", f);
  if (th > 0 && f != 0 && f != 1) {
    s.nontrivial();
  }
  const double tol = 3e-11 * trans_scale(x);
  const auto fr = frames(s, 3);
  G gf{g};
  gf.set_frames(fr[0], fr[1]);
  const Eigen::MatrixXd want = ref_exp(Tangent<G>(x * f));
  PBT_CHECK(s, close(matrix_of(g.interp(f)), want, tol), "interp(", f, ")=", show(g.interp(f)));
  PBT_CHECK(s, close(matrix_of(gf.interp(f)), want, tol), "framed interp");
  PBT_CHECK(s, close(matrix_of(gf.interp(f, fr[2])), want, tol), "framed interp with new frame");
  PBT_CHECK(s, close(matrix_of(g.interp(0.)), matrix_of(G::identity()), 1e-12 * trans_scale(x)), "interp(0) is not the identity");
  PBT_CHECK(s, close(matrix_of(g.interp(1.)), matrix_of(g), tol), "interp(1) is not the transform");
}

void arc_length(Src &s) {
  const Vec6 x = se3_alg(s, true, 1e4);
  const double th = x.head<3>().norm();
  // At half a turn the logarithm is one of two, but both paths are equally long
  s.note("x=", show(x));
  const SE3 g = SE3::exp(x);
  const double want = x.tail<3>().norm();
  if (th > 1e-3 && want > 0) {
    s.nontrivial();
  }
  const double tol = 1e-11 * (1 + want);
  PBT_CHECK(s, std::abs(g.arc_length() - want) <= tol, "arc length ", g.arc_length(), " expected ", want);
  PBT_CHECK(s, std::abs(g.inverse().arc_length() - want) <= tol, "arc length changes under inversion");
  PBT_CHECK(s, g.arc_length() >= g.translation().norm() - tol, "arc shorter than the chord");
  const double f = s.unit();
  PBT_CHECK(s, std::abs(g.interp(f).arc_length() - f * want) <= tol, "arc length is not proportional to the fraction ", f);
  // Independent check: length of the polyline through interpolated positions
  const int n = 64;
  double len = 0;
  Vec3 prev = Vec3::Zero();
  for (int i = 1; i <= n; ++i) {
    const Vec3 p = g.interp(static_cast<double>(i) / n).translation();
    len += (p - prev).norm();
    prev = p;
  }
  PBT_CHECK(s, std::abs(len - want) <= (1e-3 + 1e-9) * (1e-9 + want), "polyline length ", len, " vs arc length ", want);
}

void parts(Src &s) {
  const Vec3 r = vec3(s);
  const Vec3 t = vec3(s);
  Vec6 v = SE3::tangent_vector_from_parts(r, t);
  s.note("rot=", show(r), " trans=", show(t));
  if (r != t) {
    s.nontrivial();
  }
  const Vec6 cv = v;
  PBT_CHECK(s, Vec3(SE3::tangent_vector_rotation_part(cv)) == r, "rotation part");
  PBT_CHECK(s, Vec3(SE3::tangent_vector_translation_part(cv)) == t, "translation part");
  SE3::tangent_vector_rotation_part(v) = t;
  PBT_CHECK(s, Vec3(SE3::tangent_vector_rotation_part(v)) == t && Vec3(SE3::tangent_vector_translation_part(v)) == t, "mutable rotation part");
  SE3::tangent_vector_translation_part(v) = r;
  PBT_CHECK(s, Vec3(SE3::tangent_vector_translation_part(v)) == r && Vec3(SE3::tangent_vector_rotation_part(v)) == t, "mutable translation part");
  // Algebra layout agrees with the exponential: a pure translation moves, a pure rotation turns.
  const SE3 g = SE3::exp(SE3::tangent_vector_from_parts(Vec3::Zero(), t));
  PBT_CHECK(s, close(g.translation(), t, 1e-12 * (1 + t.norm())), "pure translation");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C02",
      "algebra elements with rotation angles at 0, 1e-13..1e-3, around both series switch-overs, up to and beyond pi, "
      "and translations of 1e-9..1e4, compared with an extended-precision matrix exponential; motions down to 1e-60 compared relative to their own size; non-trivial: the rotation "
      "part is non-zero (and, for interpolation, the fraction is not 0 or 1)",
      {
          {"exp_so3", exp_matches<SO3>, 20000, 800000},
          {"exp_se3", exp_matches<SE3>, 20000, 800000},
          {"log_so3", log_inverts<SO3>, 30000, 1000000},
          {"log_se3", log_inverts<SE3>, 30000, 1000000},
          {"interp_so3", interpolate<SO3>, 12000, 500000},
          {"interp_se3", interpolate<SE3>, 20000, 800000},
          {"arc_length", arc_length, 12000, 500000},
          {"small_so3", small<SO3>, 6000, 300000},
          {"small_se3", small<SE3>, 10000, 500000},
          {"tangent_parts", parts, 5000, 100000},
      },
      {"interpolation is compared with the geodesic where the logarithm is unique (angle below pi by 1e-3)"}};
}
