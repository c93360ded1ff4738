// Generators shared by the property programs. They only use the public API of
// the libraries under test.
#pragma once

#include <Eigen/Dense>
#include <array>
#include <string>
#include <vector>

#include "pbt.hh"
#include "resim/assert/assert.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "resim/utils/uuid.hh"

namespace gen {

using pbt::Src;
using resim::AssertException;
using resim::UUID;
using resim::transforms::SE3;
using resim::transforms::SO3;
using Frame = resim::transforms::Frame<3>;
using FramedVector = resim::transforms::FramedVector<3>;
using Vec3 = Eigen::Vector3d;
using Vec6 = Eigen::Matrix<double, 6, 1>;

inline double log_uniform(Src &s, double lo, double hi) {
  return std::exp(s.uniform(std::log(lo), std::log(hi)));
}

// A non-negative magnitude across many scales.
inline double magnitude(Src &s, double max_scale = 1e6) {
  switch (s.weighted({2, 2, 6, 3, 3, 2})) {
    case 0:
      return 0.;
    case 1:
      return 1.;
    case 2:
      return s.uniform(0, 10);
    case 3:
      return log_uniform(s, 1e-9, 1.);
    case 4:
      return log_uniform(s, 1., std::min(1e3, max_scale));
    default:
      return log_uniform(s, 1e-3, max_scale);
  }
}

inline Vec3 direction(Src &s) {
  switch (s.weighted({3, 6, 1, 1})) {
    case 0: {
      Vec3 v = Vec3::Zero();
      v[s.below(3)] = s.coin() ? -1. : 1.;
      return v;
    }
    case 2: {  // Nearly along an axis
      Vec3 v = Vec3::Zero();
      v[s.below(3)] = s.coin() ? -1. : 1.;
      v += Vec3{s.symmetric(1e-6), s.symmetric(1e-6), s.symmetric(1e-6)};
      return v.normalized();
    }
    case 3: {  // In a coordinate plane
      const double a = s.uniform(0, 2 * M_PI);
      Vec3 v = Vec3::Zero();
      const size_t i = s.below(3);
      v[i] = std::cos(a);
      v[(i + 1) % 3] = std::sin(a);
      return v;
    }
    default: {
      const double z = s.uniform(-1, 1);
      const double a = s.uniform(0, 2 * M_PI);
      const double r = std::sqrt(std::max(0., 1 - z * z));
      return Vec3{r * std::cos(a), r * std::sin(a), z};
    }
  }
}

inline Vec3 vec3(Src &s, double max_scale = 1e6) {
  return magnitude(s, max_scale) * direction(s);
}

// A rotation angle in [0, pi], concentrated where implementations branch.
inline double angle(Src &s, bool below_pi = false) {
  switch (s.weighted({2, 8, 3, 3, 2, 3, below_pi ? 0U : 1U, 1})) {
    case 0:
      return 0.;
    case 1:
      return s.uniform(0, M_PI - 1e-6);
    case 2:
      return log_uniform(s, 1e-13, 1e-3);
    case 3:  // Series switch-over at sqrt(4e-6)
      return 2e-3 * (1 + s.symmetric(s.coin() ? 1e-2 : 0.9));
    case 4:  // Large-angle switch-over
      return 3.0 + s.symmetric(s.coin() ? 1e-3 : 0.1);
    case 5:
      return M_PI - log_uniform(s, 1e-9, 1e-1);
    case 6:
      return M_PI;
    default:
      return s.pick(std::vector<double>{
          M_PI / 2, M_PI / 3, M_PI / 4, M_PI / 6, 2 * M_PI / 3, 1., 0.1});
  }
}

inline Vec3 so3_alg(Src &s, bool below_pi = false) {
  return angle(s, below_pi) * direction(s);
}

inline Vec6 se3_alg(Src &s, bool below_pi = false, double max_scale = 1e3) {
  Vec6 v;
  v.head<3>() = so3_alg(s, below_pi);
  v.tail<3>() = vec3(s, max_scale);
  return v;
}

// Rotation built independently of the code under test's exponential.
inline Eigen::Matrix3d rotation_matrix(const Vec3 &w) {
  using LM = Eigen::Matrix<long double, 3, 3>;
  const Eigen::Matrix<long double, 3, 1> v = w.cast<long double>();
  const long double t2 = v.squaredNorm();
  const long double t = std::sqrt(t2);
  long double a = 1;
  long double b = 0.5L;
  if (t > 1e-4L) {
    a = std::sin(t) / t;
    const long double h = std::sin(t / 2) / t;
    b = 2 * h * h;
  } else {
    a = 1 - t2 / 6 + t2 * t2 / 120;
    b = 0.5L - t2 / 24 + t2 * t2 / 720;
  }
  LM k;
  k << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  const LM r = LM::Identity() + a * k + b * k * k;
  return r.cast<double>();
}

inline SO3 so3(Src &s, bool below_pi = false) {
  return SO3{rotation_matrix(so3_alg(s, below_pi))};
}

inline SE3 se3(Src &s, double max_scale = 1e6, bool below_pi = false) {
  SO3 r = so3(s, below_pi);
  return SE3{r, vec3(s, max_scale)};
}

// Raw ids which are deliberately similar to each other: they often differ in a
// single bit.
inline UUID uuid(Src &s) {
  std::array<unsigned char, UUID::ARRAY_SIZE> id{};
  switch (s.weighted({3, 4, 1})) {
    case 0: {
      id[s.below(16)] = static_cast<unsigned char>(1U << s.below(8));
      break;
    }
    case 1: {
      for (auto &c : id) {
        c = static_cast<unsigned char>(s.below(256));
      }
      break;
    }
    default: {
      id.fill(0xff);
      id[s.below(16)] ^= static_cast<unsigned char>(1U << s.below(8));
    }
  }
  return UUID{id};
}

// A pool of pairwise-distinct, non-null frames.
inline std::vector<Frame> frames(Src &s, size_t n) {
  std::vector<Frame> out;
  while (out.size() < n) {
    UUID u = uuid(s);
    for (int tries = 0; tries < 300; ++tries) {
      bool dup = u.is_null();
      for (const auto &f : out) {
        dup = dup || f.id().id() == u.id();
      }
      if (!dup) {
        break;
      }
      auto id = u.id();
      for (auto &c : id) {  // increment
        if (++c != 0) {
          break;
        }
      }
      u = UUID{id};
    }
    out.emplace_back(u);
  }
  return out;
}

inline std::string show(const Eigen::MatrixXd &m) {
  std::ostringstream ss;
  ss.precision(17);
  ss << "[";
  for (int i = 0; i < m.rows(); ++i) {
    for (int j = 0; j < m.cols(); ++j) {
      ss << (i + j ? " " : "") << m(i, j);
    }
    if (m.cols() > 1 && i + 1 < m.rows()) {
      ss << ";";
    }
  }
  ss << "]";
  return ss.str();
}
inline std::string show(const SO3 &g) {
  return "SO3" + show(Eigen::MatrixXd(g.rotation_matrix()));
}
inline std::string show(const SE3 &g) {
  return "SE3{R=" + show(Eigen::MatrixXd(g.rotation().rotation_matrix())) +
         " t=" + show(Eigen::MatrixXd(g.translation())) + "}";
}

inline double dist(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b) {
  return (a - b).cwiseAbs().maxCoeff();
}
// NaN-safe closeness
inline bool close(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    return false;
  }
  for (int i = 0; i < a.rows(); ++i) {
    for (int j = 0; j < a.cols(); ++j) {
      if (!(std::abs(a(i, j) - b(i, j)) <= tol)) {
        return false;
      }
    }
  }
  return true;
}

inline Eigen::Matrix4d matrix_of(const SE3 &g) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = g.rotation().rotation_matrix();
  m.block<3, 1>(0, 3) = g.translation();
  return m;
}
inline Eigen::Matrix3d matrix_of(const SO3 &g) { return g.rotation_matrix(); }

using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

// The reference matrix exponential: scaling-and-squaring Taylor, in extended
// precision.
inline LMat ref_expm(const LMat &a) {
  long double n = a.cwiseAbs().rowwise().sum().maxCoeff();
  int k = 0;
  while (n > 0.25L && k < 200) {
    n /= 2;
    ++k;
  }
  const LMat b = a / std::pow(2.0L, k);
  LMat term = LMat::Identity(a.rows(), a.cols());
  LMat sum = term;
  for (int i = 1; i < 30; ++i) {
    term = (term * b / i).eval();
    sum += term;
  }
  for (int i = 0; i < k; ++i) {
    sum = (sum * sum).eval();
  }
  return sum;
}

inline LMat hat(const Vec3 &w) {
  LMat k(3, 3);
  k << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
  return k;
}
inline LMat hat(const Vec6 &x) {
  LMat k = LMat::Zero(4, 4);
  k.block(0, 0, 3, 3) = hat(Vec3(x.head<3>()));
  k.block(0, 3, 3, 1) = x.tail<3>().cast<long double>();
  return k;
}

}  // namespace gen
