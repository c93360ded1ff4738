// C03: adjoint representations, brackets and the differential of the exponential.
// @quick_scale: 5
#include "gen.hh"
#include "resim/transforms/cross_matrix.hh"
#include "resim/transforms/liegroup_exp_diff.hh"

namespace {
using namespace gen;

Vec3 vee(const Eigen::Matrix3d &m) {
  return 0.5 * Vec3{m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)};
}
Vec6 vee(const Eigen::Matrix4d &m) {
  Vec6 v;
  v.head<3>() = vee(Eigen::Matrix3d(m.block<3, 3>(0, 0)));
  v.tail<3>() = m.block<3, 1>(0, 3);
  return v;
}
Vec3 alg_like(Src &s, const SO3 *) { return s.coin() ? so3_alg(s) : vec3(s, 1e3); }
Vec6 alg_like(Src &s, const SE3 *) {
  Vec6 v;
  v.head<3>() = s.coin() ? so3_alg(s) : vec3(s, 1e3);
  v.tail<3>() = vec3(s, 1e3);
  return v;
}
SO3 element(Src &s, const SO3 *) { return so3(s); }
SE3 element(Src &s, const SE3 *) { return se3(s, 1e3); }

template <typename G>
void group_adjoint(Src &s) {
  using T = typename G::TangentVector;
  const G a = element(s, static_cast<G *>(nullptr));
  const G b = element(s, static_cast<G *>(nullptr));
  const T x = alg_like(s, static_cast<G *>(nullptr));
  s.note("a=", show(a), " b=", show(b), " x=", show(Eigen::MatrixXd(x)));
  const auto A = matrix_of(a);
  const auto B = matrix_of(b);
  const double sa = A.cwiseAbs().maxCoeff();
  const double sb = B.cwiseAbs().maxCoeff();
  const double tol = 1e-12 * (1 + sa) * (1 + x.norm());
  if (x.norm() > 0 && (A - A.Identity()).norm() > 1e-6) {
    s.nontrivial();
  }
  const auto X = hat(x).template cast<double>().eval();
  const Eigen::MatrixXd conj = A * X * matrix_of(a.inverse());
  const T want = vee(decltype(matrix_of(a))(conj));
  PBT_CHECK(s, close(a.adjoint() * x, want, tol), "adjoint is not conjugation: ", show(Eigen::MatrixXd(a.adjoint() * x)), " expected ", show(Eigen::MatrixXd(want)));
  PBT_CHECK(s, close(a.adjoint_times(x), want, tol), "adjoint_times is not conjugation: ", show(Eigen::MatrixXd(a.adjoint_times(x))));
  PBT_CHECK(s, close((a * b).adjoint(), a.adjoint() * b.adjoint(), 1e-12 * (1 + sa) * (1 + sb)), "adjoint is not a homomorphism");
  PBT_CHECK(s, close(a.inverse().adjoint() * a.adjoint(), G::TangentMapping::Identity(), 1e-12 * (1 + sa) * (1 + sa)), "adjoint of the inverse");
  // Frames do not matter
  const auto fr = frames(s, 2);
  G af{a};
  af.set_frames(fr[0], fr[1]);
  PBT_CHECK(s, close(af.adjoint(), a.adjoint(), tol) && close(af.adjoint_times(x), want, tol), "frames change the adjoint");
  // g exp(x) = exp(Ad x) g
  if (x.norm() < 10) {
    const double t2 = 1e-11 * (1 + sa) * (1 + sa) * (1 + x.norm());
    PBT_CHECK(s, close(matrix_of(a * G::exp(x)), matrix_of(G::exp(a.adjoint_times(x)) * a), t2), "left and right increments disagree");
  }
}

template <typename G>
void algebra_adjoint(Src &s) {
  using T = typename G::TangentVector;
  const T x = alg_like(s, static_cast<G *>(nullptr));
  const T y = alg_like(s, static_cast<G *>(nullptr));
  const T z = alg_like(s, static_cast<G *>(nullptr));
  s.note("x=", show(Eigen::MatrixXd(x)), " y=", show(Eigen::MatrixXd(y)), " z=", show(Eigen::MatrixXd(z)));
  const double tol = 1e-13 * (1 + x.norm()) * (1 + y.norm());
  const auto X = hat(x);
  const auto Y = hat(y);
  const Eigen::MatrixXd br = (X * Y - Y * X).template cast<double>();
  const T want = vee(decltype(matrix_of(G{}))(br));
  if (want.norm() > 1e-9) {
    s.nontrivial();
  }
  PBT_CHECK(s, close(G::adjoint(x) * y, want, tol), "algebra adjoint is not the bracket: ", show(Eigen::MatrixXd(G::adjoint(x) * y)), " expected ", show(Eigen::MatrixXd(want)));
  PBT_CHECK(s, close(G::adjoint_times(x, y), want, tol), "adjoint_times is not the bracket: ", show(Eigen::MatrixXd(G::adjoint_times(x, y))));
  PBT_CHECK(s, close(G::adjoint_times(x, y), -G::adjoint_times(y, x), tol), "bracket is not antisymmetric");
  PBT_CHECK(s, close(G::adjoint_times(x, x), T::Zero(), 1e-13 * (1 + x.squaredNorm())), "bracket with itself");
  const T jac = G::adjoint_times(x, G::adjoint_times(y, z)) + G::adjoint_times(y, G::adjoint_times(z, x)) + G::adjoint_times(z, G::adjoint_times(x, y));
  PBT_CHECK(s, close(jac, T::Zero(), 1e-12 * (1 + x.norm()) * (1 + y.norm()) * (1 + z.norm())), "Jacobi identity");
  // Ad(exp(x)) = expm(ad(x))
  if (x.norm() < 5) {
    const LMat ad = G::adjoint(x).template cast<long double>();
    PBT_CHECK(s, close(G::exp(x).adjoint(), ref_expm(ad).template cast<double>(), 1e-10), "Ad(exp x) != expm(ad x)");
  }
}

// The parts of an adjoint and of a bracket are products, so they are accurate relative to their factors, however small
void small(Src &s) {
  const SO3 R = so3(s);
  const double ts = s.chance(1, 4) ? 0. : log_uniform(s, 1e-60, 1e3);
  const double ws = s.chance(1, 4) ? 0. : log_uniform(s, 1e-60, 1e3);
  const double vs = s.chance(1, 2) ? 0. : log_uniform(s, 1e-60, 1e3);
  const Vec3 t = direction(s);
  const Vec3 w = direction(s);
  const Vec3 v = direction(s);
  const SE3 g{R, Vec3(ts * t)};
  Vec6 x;
  x << ws * w, vs * v;
  s.note("R=", show(R), " translation ", ts, " * ", show(t), " x=", show(Eigen::MatrixXd(x)));
  if (ws > 0 && ts > 0) s.nontrivial();
  const Eigen::Matrix3d m = R.rotation_matrix();
  const auto near = [](const Eigen::MatrixXd &got, const Eigen::MatrixXd &want, double size) { return (got - want).norm() <= 1e-13 * size; };
  const Vec3 rw = ws * (m * w);
  const Vec3 rv = vs * (m * v) + (ts * ws) * t.cross(m * w);
  const double sv = vs + ts * ws;
  const Vec6 ad = g.adjoint() * x;
  const Vec6 at = g.adjoint_times(x);
  PBT_CHECK(s, near(ad.head<3>(), rw, ws) && near(ad.tail<3>(), rv, sv), "the adjoint of a small element gives ", show(Eigen::MatrixXd(ad)));
  PBT_CHECK(s, near(at.head<3>(), rw, ws) && near(at.tail<3>(), rv, sv), "adjoint_times of a small element gives ", show(Eigen::MatrixXd(at)));
  PBT_CHECK(s, near(R.adjoint_times(ws * w), rw, ws), "adjoint_times of a rotation gives ", show(Eigen::MatrixXd(R.adjoint_times(ws * w))));
  // Brackets
  const double ps = log_uniform(s, 1e-60, 1e3);
  const double qs = s.coin() ? 0. : log_uniform(s, 1e-60, 1e3);
  const Vec3 p = direction(s);
  const Vec3 q = direction(s);
  Vec6 y;
  y << ps * p, qs * q;
  s.note("y=", show(Eigen::MatrixXd(y)));
  const Vec3 bw = (ws * ps) * w.cross(p);
  const Vec3 bv = (ws * qs) * w.cross(q) + (vs * ps) * v.cross(p);
  const double sb = ws * qs + vs * ps;
  const Vec6 br = SE3::adjoint_times(x, y);
  const Vec6 bm = SE3::adjoint(x) * y;
  PBT_CHECK(s, near(br.head<3>(), bw, ws * ps) && near(br.tail<3>(), bv, sb), "the bracket of small vectors is ", show(Eigen::MatrixXd(br)));
  PBT_CHECK(s, near(bm.head<3>(), bw, ws * ps) && near(bm.tail<3>(), bv, sb), "the algebra adjoint of a small vector gives ", show(Eigen::MatrixXd(bm)));
  PBT_CHECK(s, near(SO3::adjoint_times(ws * w, ps * p), bw, ws * ps), "the bracket of small rotation vectors");
  PBT_CHECK(s, near(resim::transforms::cross_matrix(ws * w) * (ps * p), bw, ws * ps), "the cross matrix of a small vector");
}

void exp_diff(Src &s) {
  const Vec3 x = s.chance(1, 5) ? Vec3(so3_alg(s) * s.uniform(1, 4)) : so3_alg(s);
  s.note("x=", show(x));
  if (x.norm() > 0) {
    s.nontrivial();
  }
  // exp(x + d) = exp(J d + o(d)) exp(x), J the integral of exp(t ad(x)) over
  // [0, 1]: the upper right block of a matrix exponential.
  LMat m = LMat::Zero(6, 6);
  m.block(0, 0, 3, 3) = hat(x);
  m.block(0, 3, 3, 3) = LMat::Identity(3, 3);
  const LMat e = ref_expm(m);
  const Eigen::MatrixXd want = e.block(0, 3, 3, 3).cast<double>();
  const auto J = SO3::exp_diff(x);
  PBT_CHECK(s, close(J, want, 2e-12), "exp_diff=", show(Eigen::MatrixXd(J)), " expected ", show(want));
  // And by finite differences, independently of the convention above
  const Vec3 d = direction(s);
  const double h = 1e-5;
  const Vec3 num = (SO3::exp(x + h * d) * SO3::exp(x - h * d).inverse()).log() / (2 * h);
  PBT_CHECK(s, close(J * d, num, 1e-7), "exp_diff against differences: ", show(J * d), " vs ", show(num));
}

void coefficients(Src &s) {
  double sq = 0;
  switch (s.weighted({1, 3, 4, 3, 3})) {
    case 0:
      sq = 0;
      break;
    case 1:
      sq = log_uniform(s, 1e-20, 4e-6);
      break;
    case 2:
      sq = 4e-6 * (1 + s.symmetric(s.coin() ? 1e-9 : 0.5));
      break;
    case 3:
      sq = log_uniform(s, 4e-6, 1.);
      break;
    default:
      sq = s.uniform(0, 100);
  }
  s.note("square_angle=", sq);
  s.nontrivial();
  const long double q = sq;
  long double a = 1, b = 0.5L, c = 1.0L / 6;
  if (q < 0.5L) {  // Series
    long double ta = 1, tb = 0.5L, tc = 1.0L / 6;
    for (int k = 1; k < 20; ++k) {
      ta *= -q / ((2 * k) * (2 * k + 1));
      tb *= -q / ((2 * k + 1) * (2 * k + 2));
      tc *= -q / ((2 * k + 2) * (2 * k + 3));
      a += ta;
      b += tb;
      c += tc;
    }
  } else {
    const long double t = std::sqrt(q);
    a = std::sin(t) / t;
    b = (1 - std::cos(t)) / q;
    c = (1 - a) / q;
  }
  const auto k = resim::transforms::derivative_of_exp_so3(sq);
  // Cancellation above the switch-over costs about eps / square_angle; the series below it is accurate to rounding
  const double tol = sq < 3.99e-6 ? 2e-15 : 1e-15 + 1e-15 / sq;
  PBT_CHECK(s, std::abs(k.a - static_cast<double>(a)) < 1e-14, "a=", k.a, " expected ", static_cast<double>(a));
  PBT_CHECK(s, std::abs(k.b - static_cast<double>(b)) < tol, "b=", k.b, " expected ", static_cast<double>(b));
  PBT_CHECK(s, std::abs(k.c - static_cast<double>(c)) < tol, "c=", k.c, " expected ", static_cast<double>(c));
}

void cross(Src &s) {
  const Vec3 v = vec3(s);
  const Vec3 w = vec3(s);
  s.note("v=", show(v), " w=", show(w));
  if (v.cross(w).norm() > 0) {
    s.nontrivial();
  }
  const Eigen::Matrix3d m = resim::transforms::cross_matrix(v);
  const Vec3 want{v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]};
  PBT_CHECK(s, close(m * w, want, 1e-13 * (1 + v.norm() * w.norm())), "cross matrix product");
  PBT_CHECK(s, (m + m.transpose()).norm() == 0, "not antisymmetric");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C03",
      "group elements and algebra elements over all angle and translation scales, against conjugation and commutators of "
      "matrices, the reference matrix exponential, and central differences; non-trivial: non-identity element and "
      "non-zero vector / non-zero bracket / non-zero rotation",
      {
          {"adjoint_so3", group_adjoint<SO3>, 15000, 600000},
          {"adjoint_se3", group_adjoint<SE3>, 20000, 800000},
          {"bracket_so3", algebra_adjoint<SO3>, 15000, 500000},
          {"bracket_se3", algebra_adjoint<SE3>, 15000, 500000},
          {"small", small, 15000, 500000},
          {"exp_diff", exp_diff, 20000, 800000},
          {"coefficients", coefficients, 30000, 1000000},
          {"cross_matrix", cross, 10000, 200000},
      },
      {}};
}
