// Generators and reference matrices for two jets.
#pragma once

#include "gen.hh"
#include "resim/curves/two_jet.hh"

namespace gen {

template <typename G>
using JetL = resim::curves::TwoJetL<G>;
template <typename G>
using JetR = resim::curves::TwoJetR<G>;

template <typename G>
typename G::TangentVector tangent(Src &s, double max) {
  typename G::TangentVector v;
  if (s.chance(1, 8)) {
    return G::TangentVector::Zero();
  }
  v.template head<3>() = std::min(magnitude(s, max), max) * direction(s);
  if constexpr (G::DOF == 6) {
    v.template tail<3>() = std::min(magnitude(s, max), max) * direction(s);
  }
  return v;
}

inline SO3 group(Src &s, const SO3 *, double) { return so3(s); }
inline SE3 group(Src &s, const SE3 *, double scale) { return se3(s, scale); }

template <typename G>
G group(Src &s, double scale) {
  return group(s, static_cast<const G *>(nullptr), scale);
}

template <typename G>
JetL<G> jetl(Src &s, double scale) {
  G g = group<G>(s, scale);
  typename G::TangentVector d = tangent<G>(s, scale);
  typename G::TangentVector d2 = tangent<G>(s, scale);
  return JetL<G>{g, d, d2};
}
template <typename G>
JetR<G> jetr(Src &s, double scale) {
  G g = group<G>(s, scale);
  typename G::TangentVector d = tangent<G>(s, scale);
  typename G::TangentVector d2 = tangent<G>(s, scale);
  return JetR<G>{g, d, d2};
}

// The transform as a matrix function of time, with its first two derivatives.
struct MJet {
  LMat m;
  LMat d;
  LMat d2;
};

inline MJet operator*(const MJet &a, const MJet &b) {
  return {a.m * b.m, a.d * b.m + a.m * b.d, a.d2 * b.m + 2 * a.d * b.d + a.m * b.d2};
}
template <typename G>
LMat exact_inverse(const G &g) {
  return matrix_of(g).template cast<long double>().inverse();
}
inline MJet inverse(const MJet &a) {
  const LMat c = a.m.inverse();
  const LMat d = -c * a.d * c;
  return {c, d, -c * a.d2 * c - 2 * c * a.d * d};
}

template <typename G>
MJet mjet(const JetL<G> &j) {
  const LMat m = matrix_of(j.frame_from_ref()).template cast<long double>();
  const LMat d = hat(typename G::TangentVector(j.d_frame_from_ref()));
  const LMat d2 = hat(typename G::TangentVector(j.d2_frame_from_ref()));
  return {m, d * m, (d2 + d * d) * m};
}
template <typename G>
MJet mjet(const JetR<G> &j) {
  const LMat m = matrix_of(j.ref_from_frame()).template cast<long double>();
  const LMat d = hat(typename G::TangentVector(j.d_ref_from_frame()));
  const LMat d2 = hat(typename G::TangentVector(j.d2_ref_from_frame()));
  return {m, m * d, m * (d2 + d * d)};
}

inline double maxabs(const LMat &m) { return static_cast<double>(m.cwiseAbs().maxCoeff()); }

template <typename G>
std::string show(const JetL<G> &j) {
  return "L{" + show(j.frame_from_ref()) + " d=" + show(Eigen::MatrixXd(j.d_frame_from_ref())) +
         " d2=" + show(Eigen::MatrixXd(j.d2_frame_from_ref())) + "}";
}
template <typename G>
std::string show(const JetR<G> &j) {
  return "R{" + show(j.ref_from_frame()) + " d=" + show(Eigen::MatrixXd(j.d_ref_from_frame())) +
         " d2=" + show(Eigen::MatrixXd(j.d2_ref_from_frame())) + "}";
}

// NaN-safe comparison of long double matrices
inline bool lclose(const LMat &a, const LMat &b, double tol) {
  for (int i = 0; i < a.rows(); ++i) {
    for (int j = 0; j < a.cols(); ++j) {
      if (!(std::abs(a(i, j) - b(i, j)) <= tol)) {
        return false;
      }
    }
  }
  return true;
}

}  // namespace gen
