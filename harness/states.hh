#pragma once

#include "jets.hh"
#include "resim/actor/state/rigid_body_state.hh"

namespace gen {
using State = resim::actor::state::RigidBodyState<SE3>;
using Derivs = State::StateDerivatives;

inline Derivs derivs(Src &s, double max) {
  Derivs d;
  const auto v = [&] { return Vec3(std::min(magnitude(s, max), max) * direction(s)); };
  d.velocity.linear_mps = v();
  d.velocity.angular_radps = v();
  d.acceleration.linear_mpss = v();
  d.acceleration.angular_radpss = v();
  return d;
}

inline Vec6 parts(const Vec3 &angular, const Vec3 &linear) {
  Vec6 v;
  v << angular, linear;
  return v;
}

// The pose as a function of time, from the body-frame derivatives
inline MJet motion(const SE3 &pose, const Derivs &d) {
  const LMat m = matrix_of(pose).cast<long double>();
  const LMat v = hat(parts(d.velocity.angular_radps, d.velocity.linear_mps));
  const LMat a = hat(parts(d.acceleration.angular_radpss, d.acceleration.linear_mpss));
  return {m, m * v, m * (a + v * v)};
}
inline MJet motion(const State &x) { return motion(x.ref_from_body(), x.body_derivatives()); }

inline std::string show(const Derivs &d) {
  return "v=" + show(Eigen::MatrixXd(d.velocity.linear_mps)) + " w=" + show(Eigen::MatrixXd(d.velocity.angular_radps)) +
         " a=" + show(Eigen::MatrixXd(d.acceleration.linear_mpss)) + " alpha=" + show(Eigen::MatrixXd(d.acceleration.angular_radpss));
}
inline std::string show(const State &x) { return show(x.ref_from_body()) + " " + show(x.body_derivatives()); }

inline bool same(const Derivs &a, const Derivs &b, double tv = 0, double ta = 0) {
  return close(a.velocity.linear_mps, b.velocity.linear_mps, tv) && close(a.velocity.angular_radps, b.velocity.angular_radps, tv) &&
         close(a.acceleration.linear_mpss, b.acceleration.linear_mpss, ta) && close(a.acceleration.angular_radpss, b.acceleration.angular_radpss, ta);
}
}  // namespace gen
