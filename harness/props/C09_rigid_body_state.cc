// C09: states of rigid bodies.
// @quick_scale: 3
#include "states.hh"

namespace {
using namespace gen;

void agree(Src &s, const State &x, const MJet &want, double scale, const char *what) {
  const MJet got = motion(x);
  const double tol = 1e-12 * scale;
  PBT_CHECK(s, lclose(got.m, want.m, tol), what, ": pose of ", show(x));
  PBT_CHECK(s, lclose(got.d, want.d, tol), what, ": velocity of ", show(x), " error ", maxabs(got.d - want.d));
  PBT_CHECK(s, lclose(got.d2, want.d2, tol), what, ": acceleration of ", show(x), " error ", maxabs(got.d2 - want.d2));
}
double grow(const MJet &a) { return 1 + maxabs(a.m) + maxabs(a.d) + maxabs(a.d2); }

void algebra(Src &s) {
  const double scale = s.coin() ? 5 : 300;
  const SE3 pa = se3(s, scale);
  const Derivs da = derivs(s, scale);
  const SE3 pb = se3(s, scale);
  const Derivs db = derivs(s, scale);
  const State a{pa, da};
  const State b{pb, db};
  s.note("a=", show(a), "\nb=", show(b));
  if (da.velocity.angular_radps.norm() > 1e-3 && db.velocity.linear_mps.norm() > 1e-3) s.nontrivial();
  const MJet ma = motion(pa, da);
  const MJet mb = motion(pb, db);
  const double sc = grow(ma) * grow(ma) * grow(ma) * grow(mb);
  agree(s, a * b, ma * mb, sc, "composition");
  agree(s, a.inverse_times(b), inverse(ma) * mb, sc * grow(ma), "relative state");
  agree(s, a * a, ma * ma, grow(ma) * grow(ma) * grow(ma) * grow(ma), "composition with itself");
  {
    State x = a;
    x = x * b;
    agree(s, x, ma * mb, sc, "composition assigned over its left operand");
    x = b;
    x = a * x;
    agree(s, x, ma * mb, sc, "composition assigned over its right operand");
    x = b;
    x = a.inverse_times(x);
    agree(s, x, inverse(ma) * mb, sc * grow(ma), "relative state assigned over its operand");
  }
  // A body seen from itself is at rest at the origin
  const LMat z = LMat::Zero(4, 4);
  agree(s, a.inverse_times(a), MJet{LMat::Identity(4, 4), z, z}, sc * grow(ma), "a body relative to itself");
  // What a sees of b, seen from the reference again, is b
  agree(s, a * a.inverse_times(b), mb, sc * sc, "relative state and back");
  agree(s, State::identity() * a, ma, grow(ma), "identity from the left");
  agree(s, a * State::identity(), ma, grow(ma), "identity from the right");
  agree(s, State{pa}, MJet{ma.m, z, z}, grow(ma), "state from a pose only");
  agree(s, State{}, MJet{LMat::Identity(4, 4), z, z}, 1, "default state");
  // A point fixed to the body moves with the velocity of the body
  const State c{JetR<SE3>{pa, parts(da.velocity.angular_radps, da.velocity.linear_mps), parts(da.acceleration.angular_radpss, da.acceleration.linear_mpss)}};
  PBT_CHECK(s, same(c.body_derivatives(), da), "state from a two jet ", show(c), " expected ", show(da));
}

// Histories of getters and setters against a plain record
void setters(Src &s) {
  const auto fr = frames(s, 2);
  struct {
    SE3 pose;
    Derivs d;
  } m;
  State x;
  switch (s.below(4)) {
    case 0:
      break;
    case 1:
      m.pose = se3(s, 100);
      x = State{m.pose};
      break;
    case 2:
      m.pose = se3(s, 100);
      m.d = derivs(s, 1e3);
      x = State{m.pose, m.d};
      break;
    default:
      m.pose.set_frames(fr[0], fr[1]);
      x = State::identity(fr[0], fr[1]);
  }
  const size_t n = s.count(12, 100);
  unsigned touched = 0;
  for (size_t i = 0; i < n; ++i) {
    const Vec3 v = vec3(s, 1e3);
    const size_t op = s.below(7);
    s.note("op ", op, " ", show(Eigen::MatrixXd(v)));
    touched |= 1U << op;
    switch (op) {
      case 0:
        m.d.velocity.linear_mps = v;
        x.set_body_linear_velocity_mps(v);
        break;
      case 1:
        m.d.velocity.angular_radps = v;
        x.set_body_angular_velocity_radps(v);
        break;
      case 2:
        m.d.acceleration.linear_mpss = v;
        x.set_body_linear_acceleration_mpss(v);
        break;
      case 3:
        m.d.acceleration.angular_radpss = v;
        x.set_body_angular_acceleration_radpss(v);
        break;
      case 4:
        m.pose = se3(s, 100);
        if (s.coin()) m.pose.set_frames(fr[1], fr[0]);
        x.set_ref_from_body(m.pose);
        break;
      case 5:  // From its own parts
        switch (s.below(4)) {
          case 0:
            m.d.velocity.linear_mps = m.d.velocity.angular_radps;
            x.set_body_linear_velocity_mps(x.body_angular_velocity_radps());
            break;
          case 1:
            m.d.velocity.angular_radps = m.d.velocity.linear_mps;
            x.set_body_angular_velocity_radps(x.body_linear_velocity_mps());
            break;
          case 2:
            m.d.acceleration.linear_mpss = m.d.velocity.linear_mps;
            x.set_body_linear_acceleration_mpss(x.body_linear_velocity_mps());
            break;
          default:
            m.d.acceleration.angular_radpss = m.d.acceleration.linear_mpss;
            x.set_body_angular_acceleration_radpss(x.body_linear_acceleration_mpss());
        }
        break;
      default: {
        const State y = x;
        State z;
        z = y;
        x = z;
      }
    }
    PBT_CHECK(s, matrix_of(x.ref_from_body()) == matrix_of(m.pose) && x.ref_from_body().verify_frames(m.pose.into(), m.pose.from()), "pose after step ", i);
    PBT_CHECK(s, same(x.body_derivatives(), m.d), "derivatives after step ", i, ": ", show(x), " expected ", show(m.d));
    PBT_CHECK(s, x.body_linear_velocity_mps() == m.d.velocity.linear_mps && x.body_angular_velocity_radps() == m.d.velocity.angular_radps &&
                     x.body_linear_acceleration_mpss() == m.d.acceleration.linear_mpss && x.body_angular_acceleration_radpss() == m.d.acceleration.angular_radpss,
              "single getters after step ", i);
    PBT_CHECK(s, x.ref_from_body_two_jet().d_ref_from_frame() == parts(m.d.velocity.angular_radps, m.d.velocity.linear_mps) &&
                     x.ref_from_body_two_jet().d2_ref_from_frame() == parts(m.d.acceleration.angular_radpss, m.d.acceleration.linear_mpss),
              "two jet after step ", i);
  }
  if (__builtin_popcount(touched) >= 3) s.nontrivial();
}

void state_frames(Src &s) {
  const auto fr = frames(s, 3);
  const size_t ai = s.below(3);
  const size_t af = s.below(3);
  const size_t bi = s.below(3);
  const size_t bf = s.below(3);
  const auto st = [&](size_t into, size_t from) {
    SE3 g = se3(s, 10);
    g.set_frames(fr[into], fr[from]);
    return State{g, derivs(s, 10)};
  };
  const State a = st(ai, af);
  const State b = st(bi, bf);
  s.note(ai, "_from_", af, " ", bi, "_from_", bf);
  if (ai != bf) s.nontrivial();
  bool threw = false;
  try {
    const State c = a * b;
    PBT_CHECK(s, c.ref_from_body().verify_frames(fr[ai], fr[bf]), "frames of the composition");
  } catch (const AssertException &) {
    threw = true;
  }
  PBT_CHECK(s, threw == (af != bi), "composition must fail exactly when inner frames differ; threw=", threw);
  threw = false;
  try {
    const State c = a.inverse_times(b);
    PBT_CHECK(s, c.ref_from_body().verify_frames(fr[af], fr[bf]), "frames of the relative state");
  } catch (const AssertException &) {
    threw = true;
  }
  PBT_CHECK(s, threw == (ai != bi), "a relative state must fail exactly when reference frames differ; threw=", threw);
  threw = false;
  try {
    const State c = a * a;
    PBT_CHECK(s, c.ref_from_body().verify_frames(fr[ai], fr[af]), "frames of the square");
  } catch (const AssertException &) {
    threw = true;
  }
  PBT_CHECK(s, threw == (ai != af), "composing a state with itself must fail exactly when its frames differ; threw=", threw);
  PBT_CHECK(s, a.inverse_times(a).ref_from_body().verify_frames(fr[af], fr[af]), "frames of a body relative to itself");
  {
    State x = b;
    x = a;
    PBT_CHECK(s, x.ref_from_body().verify_frames(fr[ai], fr[af]), "frames after assignment");
  }
  const Frame &fi = fr[ai];
  const Frame &ff = fr[af];
  const State id = State::identity(fi, ff);
  PBT_CHECK(s, id.ref_from_body().verify_frames(fi, ff) && same(id.body_derivatives(), Derivs{}), "framed identity");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C09",
      "pairs of states with random poses (angle 0..pi), linear/angular velocities and accelerations over many scales; "
      "composition and relative state compared with an extended-precision matrix function of time and its first two "
      "derivatives (body-frame convention); setter/getter histories against a plain record; frame tuples from a pool of "
      "similar ids; non-trivial: rotating and translating bodies / three different setters used / outer frames differ",
      {
          {"algebra", algebra, 60000, 2000000},
          {"setters", setters, 30000, 1000000},
          {"frames", state_frames, 20000, 500000},
      },
      {}};
}
