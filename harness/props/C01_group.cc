// C01: rotations and rigid transforms form groups acting on 3-space.
// @quick_scale: 4
#include "gen.hh"

namespace {
using namespace gen;

double scale_of(const SE3 &g) { return 1 + g.translation().norm(); }
double scale_of(const SO3 &) { return 1; }

template <typename G>
G element(Src &s);
template <>
SO3 element<SO3>(Src &s) {
  switch (s.weighted({6, 2, 2, 2, 1})) {
    case 0:
      return so3(s);
    case 1: {
      const Vec3 axis = direction(s);
      return SO3{angle(s), axis};
    }
    case 2: {
      const Vec3 axis = direction(s);
      return SO3{Eigen::AngleAxisd{angle(s), axis}};
    }
    case 3: {
      const Vec3 axis = direction(s);
      const double a = angle(s);
      const Vec3 v = std::sin(a / 2) * axis;
      Eigen::Quaterniond q{std::cos(a / 2), v[0], v[1], v[2]};
      if (s.coin()) {
        q.coeffs() *= -1;
      }
      return SO3{q};
    }
    default:
      return SO3::exp(so3_alg(s));
  }
}
template <>
SE3 element<SE3>(Src &s) {
  switch (s.weighted({6, 1, 1, 1})) {
    case 0: {
      SO3 r = element<SO3>(s);
      return SE3{r, vec3(s)};
    }
    case 1:
      return SE3{element<SO3>(s)};
    case 2:
      return SE3{vec3(s)};
    default:
      return SE3::exp(se3_alg(s));
  }
}

template <typename G>
void laws(Src &s) {
  const G a = element<G>(s);
  const G b = element<G>(s);
  const G c = element<G>(s);
  const Vec3 p = vec3(s);
  s.note("a=", show(a), " b=", show(b), " c=", show(c), " p=", show(p));
  const double sc = (scale_of(a) + scale_of(b) + scale_of(c) + p.norm());
  const double tol = 1e-12 * sc;
  const auto A = matrix_of(a);
  const auto B = matrix_of(b);
  using Mat = std::decay_t<decltype(A)>;
  const Mat I = Mat::Identity();
  if ((A * B - B * A).norm() > 1e-6) {
    s.nontrivial();
  }
  PBT_CHECK(s, close(matrix_of(a * b), A * B, tol), "composition is not matrix multiplication: ", show(a * b));
  PBT_CHECK(s, close(matrix_of(a * a), A * A, tol * sc), "the square is not the matrix square: ", show(a * a));
  PBT_CHECK(s, close(matrix_of((a * b) * c), matrix_of(a * (b * c)), tol), "not associative");
  PBT_CHECK(s, close((a * b) * p, a * (b * p), tol), "composition inconsistent with action");
  PBT_CHECK(s, close(matrix_of(a * a.inverse()), I, tol), "a * inverse(a) is not the identity: ", show(a * a.inverse()));
  PBT_CHECK(s, close(matrix_of(a.inverse() * a), I, tol), "inverse(a) * a is not the identity");
  PBT_CHECK(s, close(matrix_of((a * b).inverse()), matrix_of(b.inverse() * a.inverse()), tol), "inverse of a product");
  PBT_CHECK(s, close(matrix_of(a.inverse().inverse()), A, tol), "inverse is not an involution");
  PBT_CHECK(s, close(a.inverse() * (a * p), p, tol), "inverse does not undo the action");
  PBT_CHECK(s, close(matrix_of(G::identity()), I, 0.), "identity");
  PBT_CHECK(s, close(matrix_of(G{}), I, 0.), "default is identity");
  PBT_CHECK(s, close(matrix_of(G::identity() * a), A, 1e-13 * sc), "identity * a");
  PBT_CHECK(s, close(matrix_of(a * G::identity()), A, 1e-13 * sc), "a * identity");
  PBT_CHECK(s, close(G::identity() * p, p, 0.), "identity * p");
  // The action is that of the matrix: rotate, then translate
  {
    const Eigen::Matrix3d R = A.template block<3, 3>(0, 0);
    Vec3 want = R * p;
    PBT_CHECK(s, close(a.rotate(p), want, tol), "rotate is not multiplication by the rotation matrix: ", show(a.rotate(p)));
    if constexpr (std::is_same_v<G, SE3>) {
      want += a.translation();
    }
    PBT_CHECK(s, close(a * p, want, tol), "the action is not that of the matrix: ", show(Vec3(a * p)), " expected ", show(want));
  }
  // Framed variants of the action agree with the unframed one.
  PBT_CHECK(s, close(a.rotate(p), (a * p - a * Vec3::Zero().eval()).eval(), tol), "rotate is not the rotational part of the action");
  PBT_CHECK(s, std::abs(a.rotate(p).norm() - p.norm()) <= tol, "rotate changes length");
  // Frames have no influence on the transform itself
  const auto fr = frames(s, 3);
  G af{a}, bf{b};
  af.set_frames(fr[0], fr[1]);
  bf.set_frames(fr[1], fr[2]);
  G loop{a};
  loop.set_frames(fr[0], fr[0]);
  PBT_CHECK(s, close(matrix_of(loop * loop), A * A, tol * sc), "frames change the square");
  PBT_CHECK(s, close(matrix_of(af * bf), matrix_of(a * b), tol), "frames change composition");
  PBT_CHECK(s, close(matrix_of(af.inverse()), matrix_of(a.inverse()), tol), "frames change inverse");
  PBT_CHECK(s, close(af * p, a * p, tol), "frames change action");
}

// A history of compositions and inversions, mirrored on extended precision
// matrices: the result stays a rigid transform and follows the model.
template <typename G>
void history(Src &s) {
  G g = G::identity();
  using LM = LMat;
  const auto lift = [](const G &x) -> LM { return matrix_of(x).template cast<long double>(); };
  const auto inv = [](const LM &m) {
    LM r = LM::Identity(m.rows(), m.cols());
    const LM rt = m.block(0, 0, 3, 3).transpose();
    r.block(0, 0, 3, 3) = rt;
    if (m.rows() == 4) {
      r.block(0, 3, 3, 1) = -rt * m.block(0, 3, 3, 1);
    }
    return r;
  };
  LM m = lift(g);
  const size_t n = 1 + s.below(60);
  double scale = 1;
  for (size_t i = 0; i < n; ++i) {
    const size_t op = s.below(5);
    if (op == 4) {
      if (scale > 1e6 || n > 30) continue;  // Keep the numbers reasonable
      g = g * g;
      m = m * m;
      scale *= 2;
      s.note("square");
    } else if (op == 3) {
      g = g.inverse();
      m = inv(m);
      s.note("inverse");
    } else {
      const G x = element<G>(s);
      scale += scale_of(x);
      s.note(op == 0 ? "right-multiply " : op == 1 ? "left-multiply " : "right-multiply inverse of ", show(x));
      if (op == 0) {
        g = g * x;
        m = m * lift(x);
      } else if (op == 1) {
        g = x * g;
        m = lift(x) * m;
      } else {
        g = g * x.inverse();
        m = m * inv(lift(x));
      }
    }
  }
  if (n > 3) {
    s.nontrivial();
  }
  const double tol = 1e-13 * scale * static_cast<double>(n + 10);
  PBT_CHECK(s, close(matrix_of(g), m.cast<double>(), tol), "history diverges from the model: ", show(g));
  const Eigen::Matrix3d r = matrix_of(g).template block<3, 3>(0, 0);
  PBT_CHECK(s, close(r * r.transpose(), Eigen::Matrix3d::Identity(), 1e-12 * (n + 1)), "not orthonormal");
  PBT_CHECK(s, std::abs(r.determinant() - 1) < 1e-12 * (n + 1), "determinant is not one");
}

void constructors(Src &s) {
  const Vec3 axis = direction(s);
  const double a = s.coin() ? angle(s) : s.uniform(-4 * M_PI, 4 * M_PI);
  const Vec3 t = vec3(s);
  s.note("angle=", a, " axis=", show(axis), " t=", show(t));
  const Eigen::Matrix3d r = rotation_matrix(a * axis);
  const double tol = 1e-13;
  if (std::abs(std::sin(a)) > 1e-6) {
    s.nontrivial();
  }
  const Vec3 v = std::sin(a / 2) * axis;
  const Eigen::Quaterniond q{std::cos(a / 2), v[0], v[1], v[2]};
  const std::vector<SO3> all{
      SO3{a, axis}, SO3{Eigen::AngleAxisd{a, axis}}, SO3{q}, SO3{Eigen::Quaterniond{-q.coeffs()}}, SO3{r}};
  for (size_t i = 0; i < all.size(); ++i) {
    const SO3 &g = all[i];
    PBT_CHECK(s, close(g.rotation_matrix(), r, tol), "constructor ", i, " gives ", show(g));
    const Eigen::Quaterniond k = g.quaternion();
    PBT_CHECK(s, std::abs(k.norm() - 1) < 1e-12, "quaternion is not unit");
    PBT_CHECK(s, std::min((k.coeffs() - q.coeffs()).norm(), (k.coeffs() + q.coeffs()).norm()) < 1e-7, "quaternion differs, constructor ", i);
    PBT_CHECK(s, close(SO3{k}.rotation_matrix(), r, 1e-12), "quaternion round trip");
    const SE3 e{g, t};
    PBT_CHECK(s, close(e.rotation().rotation_matrix(), r, tol) && close(e.translation(), t, 0), "pose from rotation and translation");
    PBT_CHECK(s, close(SE3{g}.rotation().rotation_matrix(), r, tol) && close(SE3{g}.translation(), Vec3::Zero(), 0), "pose from rotation");
    PBT_CHECK(s, close(SE3{t}.rotation().rotation_matrix(), Eigen::Matrix3d::Identity(), 0) && close(SE3{t}.translation(), t, 0), "pose from translation");
    const auto fr = frames(s, 2);
    const SO3 gf{r, fr[0], fr[1]};
    const SE3 ef{gf, t, fr[1], fr[0]};
    PBT_CHECK(s, close(matrix_of(ef), matrix_of(SE3{SO3{r}, t}), 1e-13), "framed pose construction");
    PBT_CHECK(s, close(matrix_of(SE3(gf, fr[1], fr[0])), matrix_of(SE3{SO3{r}}), 1e-13), "framed rotation-only pose construction");
    PBT_CHECK(s, close(matrix_of(SE3(t, fr[1], fr[0])), matrix_of(SE3{t}), 1e-13), "framed translation-only pose construction");
  }
}

template <typename G>
void approx(Src &s) {
  const G a = element<G>(s);
  const G n{G::exp([&] {
    typename G::TangentVector x;
    x.setZero();
    x[s.below(G::DOF)] = (s.coin() ? -1 : 1) * log_uniform(s, 1e-9, 3.0);
    s.note("perturb by ", show(Eigen::MatrixXd(x)));
    return x;
  }())};
  // Scale translational perturbations with the pose
  s.note("a=", show(a));
  const G b = a * n;
  s.nontrivial();
  PBT_CHECK(s, a.is_approx(a), "not approximately equal to itself");
  PBT_CHECK(s, a.is_approx_transform(a), "not approximately equal to itself");
  const auto A = matrix_of(a);
  const auto B = matrix_of(b);
  const double dr = (A.template block<3, 3>(0, 0) - B.template block<3, 3>(0, 0)).norm();
  double dt = 0;
  if constexpr (std::is_same_v<G, SE3>) {
    dt = (a.translation() - b.translation()).norm() /
         std::max(a.translation().norm(), b.translation().norm());
  }
  if (dr > 1e-8 || dt > 1e-8) {
    PBT_CHECK(s, !a.is_approx(b), "clearly different transforms compare approximately equal");
    PBT_CHECK(s, !b.is_approx(a), "clearly different transforms compare approximately equal");
    PBT_CHECK(s, !a.is_approx_transform(b), "clearly different transforms compare approximately equal");
    s.label("different");
  }
  // Rounding errors do not make a difference, whatever the scale: compared relative to the size of the transform
  {
    Eigen::Matrix3d r = A.template block<3, 3>(0, 0);
    const double e = log_uniform(s, 1e-17, 1e-14);
    for (int i = 0; i < 9; ++i) r(i / 3, i % 3) += e * s.symmetric(1);
    G c{};
    if constexpr (std::is_same_v<G, SE3>) {
      Eigen::Vector3d t = a.translation();
      const double size = t.norm();
      for (int i = 0; i < 3; ++i) t[i] += size * e * s.symmetric(1);
      c = SE3{SO3{r}, t};
    } else {
      c = SO3{r};
    }
    PBT_CHECK(s, a.is_approx(c) && c.is_approx(a) && a.is_approx_transform(c), "transforms that differ by relative rounding errors of ", e, " are told apart");
  }
  const auto fr = frames(s, 3);
  G f{a};
  f.set_frames(fr[0], fr[1]);
  PBT_CHECK(s, f.is_approx_transform(a) && a.is_approx_transform(f), "frames ignored by transform comparison");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C01",
      "rotations from matrices, angle-axes, quaternions and exponentials with angles concentrated at 0, the series "
      "switch-overs, and pi; translations of 1e-9..1e6; histories of up to 60 compositions/inversions against an "
      "extended-precision matrix model; non-trivial: the elements do not commute / the history has more than 3 steps / "
      "the angle is not a multiple of pi",
      {
          {"laws_so3", laws<SO3>, 40000, 2000000},
          {"laws_se3", laws<SE3>, 60000, 3000000},
          {"history_so3", history<SO3>, 8000, 400000},
          {"history_se3", history<SE3>, 10000, 500000},
          {"constructors", constructors, 15000, 600000},
          {"approx_so3", approx<SO3>, 15000, 500000},
          {"approx_se3", approx<SE3>, 15000, 500000},
      },
      {"constructor inputs are unit axes, unit quaternions and orthonormal matrices"}};
}
