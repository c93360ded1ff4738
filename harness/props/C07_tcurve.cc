// C07: time-parameterized curves.
// @quick_scale: 4
#include "jets.hh"
#include "resim/curves/quintic_poly_coeffs.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/t_curve_segment.hh"

namespace {
using namespace gen;
using resim::curves::QuinticPolyCoeffs;
using resim::curves::TCurve;
using resim::curves::TCurveSegment;
using resim::curves::TwoJetPolyCoeffs;

// Polynomials with the boundary conditions of a quintic Hermite basis.
void quintic(Src &s) {
  double t = 0;
  switch (s.weighted({2, 2, 6, 1})) {
    case 0:
      t = 0;
      break;
    case 1:
      t = 1;
      break;
    case 2:
      t = s.unit();
      break;
    default:
      t = s.coin() ? log_uniform(s, 1e-12, 1e-3) : 1 - log_uniform(s, 1e-12, 1e-3);
  }
  s.note("t=", t);
  if (t != 0 && t != 1) {
    s.nontrivial();
  }
  using L = long double;
  const L x = t;
  const L x2 = x * x;
  const L x3 = x2 * x;
  const L x4 = x3 * x;
  const L x5 = x4 * x;
  // The unique quintics with p, p', p'' at 0 and 1 all zero, but one of them.
  struct Row {
    const char *name;
    TwoJetPolyCoeffs got;
    L a, da, d2a;
  };
  const Row rows[] = {
      {"dest_from_orig", QuinticPolyCoeffs::dest_from_orig(t), 10 * x3 - 15 * x4 + 6 * x5, 30 * x2 - 60 * x3 + 30 * x4, 60 * x - 180 * x2 + 120 * x3},
      {"d_orig", QuinticPolyCoeffs::d_orig(t), x - 6 * x3 + 8 * x4 - 3 * x5, 1 - 18 * x2 + 32 * x3 - 15 * x4, -36 * x + 96 * x2 - 60 * x3},
      {"d_dest", QuinticPolyCoeffs::d_dest(t), -4 * x3 + 7 * x4 - 3 * x5, -12 * x2 + 28 * x3 - 15 * x4, -24 * x + 84 * x2 - 60 * x3},
      {"d2_orig", QuinticPolyCoeffs::d2_orig(t), x2 / 2 - 3 * x3 / 2 + 3 * x4 / 2 - x5 / 2, x - 9 * x2 / 2 + 6 * x3 - 5 * x4 / 2, 1 - 9 * x + 18 * x2 - 10 * x3},
      {"d2_dest", QuinticPolyCoeffs::d2_dest(t), x3 / 2 - x4 + x5 / 2, 3 * x2 / 2 - 4 * x3 + 5 * x4 / 2, 3 * x - 12 * x2 + 10 * x3},
  };
  for (const auto &r : rows) {
    PBT_CHECK(s, std::abs(r.got.a - static_cast<double>(r.a)) <= 1e-13, r.name, " value ", r.got.a, " expected ", r.a);
    PBT_CHECK(s, std::abs(r.got.da - static_cast<double>(r.da)) <= 1e-12, r.name, " first derivative ", r.got.da, " expected ", r.da);
    PBT_CHECK(s, std::abs(r.got.d2a - static_cast<double>(r.d2a)) <= 1e-11, r.name, " second derivative ", r.got.d2a, " expected ", r.d2a);
  }
}

template <typename G>
struct Model {
  using Control = typename TCurve<G>::Control;
  std::vector<Control> pts;
  bool framed = false;
  std::vector<Frame> fr;
};

template <typename G>
G frame_it(G g, const Model<G> &m, int how = 0) {
  // how: 0 right, 1 swapped, 2 other point frame, 3 other ref frame, 4 toggled framedness
  switch (how) {
    case 0:
      if (m.framed) g.set_frames(m.fr[0], m.fr[1]);
      break;
    case 1:
      g.set_frames(m.fr[1], m.fr[0]);
      break;
    case 2:
      g.set_frames(m.fr[2], m.fr[1]);
      break;
    case 3:
      g.set_frames(m.fr[0], m.fr[2]);
      break;
    default:
      if (!m.framed) g.set_frames(m.fr[0], m.fr[1]);
  }
  return g;
}

// A control point whose derivatives, over a unit of dt, are moderate.
template <typename G>
typename TCurve<G>::Control control(Src &s, const Model<G> &m, double time, double dt) {
  G g = frame_it(group<G>(s, 10.), m);
  typename G::TangentVector d = tangent<G>(s, 3.) / dt;
  typename G::TangentVector d2 = tangent<G>(s, 3.) / (dt * dt);
  return {time, JetL<G>{g, d, d2}};
}

template <typename G>
Model<G> model(Src &s, size_t max_pts, bool small_offset) {
  Model<G> m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  const size_t n = 2 + s.count(max_pts - 1, 60);
  double base = 1;
  switch (s.weighted({3, 3, 1})) {
    case 1:
      base = log_uniform(s, 1e-3, 1e3);
      break;
    case 2:
      base = log_uniform(s, 1e-12, 1e12);
      break;
    default:
      break;
  }
  double t = 0;
  switch (s.weighted({2, 2, 1})) {
    case 1:
      t = base * s.symmetric(5);
      break;
    case 2:
      t = base * s.symmetric(small_offset ? 5 : 1e5);
      break;
    default:
      break;
  }
  for (size_t i = 0; i < n; ++i) {
    const double dt = base * s.pick(std::vector<double>{1., 0.5, 2., 0.25, 3.7});
    m.pts.push_back(control(s, m, t, dt));
    t += dt;
  }
  return m;
}

template <typename G>
std::string show(const Model<G> &m) {
  std::string out = m.framed ? "framed" : "unframed";
  for (const auto &p : m.pts) {
    std::ostringstream ss;
    ss.precision(17);
    ss << "\n t=" << p.time << " " << gen::show(p.point);
    out += ss.str();
  }
  return out;
}

template <typename G>
void same_jet(Src &s, const JetL<G> &got, const JetL<G> &want, double tol, double tol1, double tol2, const std::string &what) {
  PBT_CHECK(s, close(matrix_of(got.frame_from_ref()), matrix_of(want.frame_from_ref()), tol), what, ": pose ", gen::show(got), " expected ", gen::show(want));
  PBT_CHECK(s, close(got.d_frame_from_ref(), want.d_frame_from_ref(), tol1), what, ": first derivative ", gen::show(got), " expected ", gen::show(want));
  PBT_CHECK(s, close(got.d2_frame_from_ref(), want.d2_frame_from_ref(), tol2), what, ": second derivative ", gen::show(got), " expected ", gen::show(want));
}

template <typename G>
void same_frames(Src &s, const G &g, const Model<G> &m, const char *what) {
  if (m.framed) {
    PBT_CHECK(s, g.into().id().id() == m.fr[0].id().id() && g.from().id().id() == m.fr[1].id().id(), what, ": frames");
  } else {
    PBT_CHECK(s, !g.is_framed(), what, ": is framed");
  }
}

template <typename G>
TCurve<G> make_curve(Src &s, const Model<G> &m) {
  switch (s.below(4)) {
    case 0: {
      TCurve<G> c;
      for (const auto &p : m.pts) {
        c.append(p);
      }
      return c;
    }
    case 1:
      return TCurve<G>(m.pts);
    case 2: {
      if (m.pts.size() == 2) {
        return TCurve<G>{m.pts[0], m.pts[1]};
      }
      if (m.pts.size() == 3) {
        return TCurve<G>{m.pts[0], m.pts[1], m.pts[2]};
      }
      TCurve<G> c{m.pts[0]};
      for (size_t i = 1; i < m.pts.size(); ++i) {
        c.append({m.pts[i]});
      }
      return c;
    }
    default: {
      TCurve<G> c;
      c.append({m.pts[0], m.pts[1]});
      for (size_t i = 2; i < m.pts.size(); ++i) {
        c.append(m.pts[i]);
      }
      return c;
    }
  }
}

// Interpolation of the control points, their derivatives, frames and metadata.
template <typename G>
void interpolates(Src &s) {
  const Model<G> m = model<G>(s, 7, false);
  s.note(show(m));
  TCurve<G> c = make_curve(s, m);
  if (s.coin()) {
    TCurve<G> copy = c;
    c = std::move(copy);
    s.label("copied");
  }
  if (m.pts.size() > 2) {
    s.nontrivial();
  }
  PBT_CHECK(s, c.start_time() == m.pts.front().time && c.end_time() == m.pts.back().time, "start or end time");
  PBT_CHECK(s, c.is_framed() == m.framed, "is_framed");
  PBT_CHECK(s, c.control_pts().size() == m.pts.size() && c.segments().size() + 1 == m.pts.size(), "number of control points or segments");
  const Frame none = Frame::null_frame();
  PBT_CHECK(s, c.point_frame() == (m.framed ? m.fr[0] : none) && c.reference_frame() == (m.framed ? m.fr[1] : none), "frames of the curve");
  for (size_t i = 0; i < m.pts.size(); ++i) {
    const auto &p = m.pts[i];
    PBT_CHECK(s, c.control_pts()[i].time == p.time, "control time ", i);
    same_jet(s, c.control_pts()[i].point, p.point, 0, 0, 0, "stored control point");
    same_frames(s, c.control_pts()[i].point.frame_from_ref(), m, "stored control point");
    if (i > 0) {
      PBT_CHECK(s, c.segments()[i - 1].orig_time == m.pts[i - 1].time && c.segments()[i - 1].dest_time == p.time, "segment times ", i);
      same_frames(s, c.segments()[i - 1].curve.orig().frame_from_ref(), m, "segment origin");
    }
    double span = 1e300;
    if (i > 0) span = std::min(span, p.time - m.pts[i - 1].time);
    if (i + 1 < m.pts.size()) span = std::min(span, m.pts[i + 1].time - p.time);
    double mag = 1;
    for (const auto &q : m.pts) {
      mag = std::max(mag, 1 + matrix_of(q.point.frame_from_ref()).cwiseAbs().maxCoeff());
    }
    const double e = 1e-9 * mag * mag;
    const std::string what = "control point " + std::to_string(i);
    const JetL<G> at = c.point_at(p.time);
    same_frames(s, at.frame_from_ref(), m, "query");
    same_jet(s, at, p.point, e, 30 * e / span, 100 * e / span / span, what);
    // Approaching the control point from either side (C2 continuity)
    for (int side = -1; side <= 1; side += 2) {
      if ((side < 0 && i == 0) || (side > 0 && i + 1 == m.pts.size())) {
        continue;
      }
      const double tiny = span * log_uniform(s, 1e-12, 1e-8);
      const double t = p.time + side * tiny;
      if (t == p.time) {
        continue;
      }
      const double step = std::abs(t - p.time) / span;
      const double grow = mag * mag * mag;
      same_jet(s, c.point_at(t), p.point, e + 1e3 * step * grow, (30 * e + 1e4 * step * grow) / span, (100 * e + 1e5 * step * grow) / span / span, what + " (limit)");
      // And leaving it as its velocity and acceleration say
      const double seg = side < 0 ? p.time - m.pts[i - 1].time : m.pts[i + 1].time - p.time;
      const double t2 = p.time + side * seg * log_uniform(s, 1e-11, 1e-3);
      const double h = t2 - p.time;
      const double r = std::abs(h) / seg;
      const G moved = G::exp(p.point.d_frame_from_ref() * h + p.point.d2_frame_from_ref() * (0.5 * h * h));
      const Eigen::MatrixXd want = matrix_of(moved) * matrix_of(p.point.frame_from_ref());
      const Eigen::MatrixXd got = matrix_of(c.point_at(t2).frame_from_ref());
      PBT_CHECK(s, close(got, want, (1e-12 + 1e5 * r * r * r) * grow), what, " left for ", h, ": off by ", (got - want).norm());
    }
  }
}

// Strictly increasing times are enough, however close they are: the poses at
// the control points are met, and the query before and after them too.
template <typename G>
void near_times(Src &s) {
  Model<G> m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  const size_t n = 2 + s.below(6);
  double t = s.weighted({1, 2, 1}) == 0 ? 0. : s.symmetric(s.coin() ? 10 : 1e9);
  double mag = 1;
  bool near = false;
  TCurve<G> c;
  for (size_t i = 0; i < n; ++i) {
    if (i > 0) {
      switch (s.weighted({3, 3, 2})) {
        case 0: {
          const double last = t;
          t = std::nextafter(last, HUGE_VAL);
          for (size_t k = s.below(3); k > 0; --k) t = std::nextafter(t, HUGE_VAL);
          if (t - last < 1e-100) t = last + 1e-100;  // Whose square is still a number
          near = true;
          break;
        }
        case 1: {
          const double next = t + log_uniform(s, 1e-18, 1e-3);
          t = next > t ? next : std::nextafter(t, HUGE_VAL);
          if (t < 1e-100 && t > -1e-100) t = 1e-100;
          near = true;
          break;
        }
        default:
          t += s.uniform(0.1, 1);
      }
      if (!(t > m.pts.back().time)) {
        t = m.pts.back().time + 1;
      }
    }
    // The same pose now and then, and derivatives that do not matter over a short time
    G g = i > 0 && s.chance(1, 3) ? m.pts.back().point.frame_from_ref() : frame_it(group<G>(s, 10.), m);
    const bool still = s.chance(1, 3);
    typename G::TangentVector d = tangent<G>(s, 2.);
    typename G::TangentVector d2 = tangent<G>(s, 2.);
    if (still) {
      d.setZero();
      d2.setZero();
    }
    m.pts.push_back({t, JetL<G>{g, d, d2}});
    mag = std::max(mag, 1 + matrix_of(g).cwiseAbs().maxCoeff());
    try {
      c.append(m.pts.back());
    } catch (const AssertException &e) {
      s.note(show(m));
      pbt::fail("a control point at a later time was refused: ", e.what());
    }
  }
  s.note(show(m));
  if (near) {
    s.nontrivial();
  }
  const double e = 1e-9 * mag * mag;
  PBT_CHECK(s, c.control_pts().size() == n && c.start_time() == m.pts.front().time && c.end_time() == m.pts.back().time, "extent of the curve");
  for (size_t i = 0; i < n; ++i) {
    const auto &p = m.pts[i];
    const JetL<G> at = c.point_at(p.time);
    same_frames(s, at.frame_from_ref(), m, "query");
    PBT_CHECK(s, close(matrix_of(at.frame_from_ref()), matrix_of(p.point.frame_from_ref()), e), "control point ", i, " at ", p.time, ": ", gen::show(at));
    double span = 0;  // The segment which answers is one of the two
    if (i > 0) span = p.time - m.pts[i - 1].time;
    if (i + 1 < n) span = span == 0 ? m.pts[i + 1].time - p.time : std::min(span, m.pts[i + 1].time - p.time);
    if (span > 1e-3) {
      same_jet(s, at, p.point, e, 30 * e / span, 100 * e / span / span, "control point " + std::to_string(i));
    }
    if (i + 1 < n) {
      // Anything between two control points at nearly the same pose stays there
      const double q = p.time + (m.pts[i + 1].time - p.time) * s.unit();
      if (q >= p.time && q <= m.pts[i + 1].time && m.pts[i + 1].time - p.time < 1e-3 &&
          matrix_of(p.point.frame_from_ref()) == matrix_of(m.pts[i + 1].point.frame_from_ref())) {
        PBT_CHECK(s, close(matrix_of(c.point_at(q).frame_from_ref()), matrix_of(p.point.frame_from_ref()), e + 0.1 * mag * mag * (m.pts[i + 1].time - p.time) * 100), "between control points ", i, " and ", i + 1, " at ", q);
      }
    }
  }
}

// The returned derivatives are the derivatives of the returned pose.
template <typename G>
void derivatives(Src &s) {
  const Model<G> m = model<G>(s, 4, true);
  TCurve<G> c = make_curve(s, m);
  const size_t i = s.below(m.pts.size() - 1);
  const double t0 = m.pts[i].time;
  const double dt = m.pts[i + 1].time - t0;
  const double h = dt * 2e-3;
  const double frac = s.uniform(0.01, 0.99);
  const double t = t0 + frac * dt;
  s.note(show(m), "\n query ", t, " (", frac, " of segment ", i, ")");
  s.nontrivial();
  LMat f[7];
  for (int k = -3; k <= 3; ++k) {
    f[k + 3] = matrix_of(c.point_at(t + k * h).frame_from_ref()).template cast<long double>();
  }
  const long double lh = h;
  const LMat d = (-f[0] + 9 * f[1] - 45 * f[2] + 45 * f[4] - 9 * f[5] + f[6]) / (60 * lh);
  const LMat d2 = (2 * f[0] - 27 * f[1] + 270 * f[2] - 490 * f[3] + 270 * f[4] - 27 * f[5] + 2 * f[6]) / (180 * lh * lh);
  const JetL<G> j = c.point_at(t);
  const MJet got = mjet(j);
  double mag = 1;
  for (const auto &q : m.pts) {
    mag = std::max(mag, 1 + matrix_of(q.point.frame_from_ref()).cwiseAbs().maxCoeff());
  }
  const double tol = 2e-5 * mag * mag;
  PBT_CHECK(s, lclose(got.d, d, tol / dt), "first derivative is not the derivative of the pose; error ", maxabs(got.d - d) * dt, " in ", gen::show(j));
  PBT_CHECK(s, lclose(got.d2, d2, 10 * tol / dt / dt), "second derivative is not the derivative of the pose; error ", maxabs(got.d2 - d2) * dt * dt, " in ", gen::show(j));
  // The rotation stays a rotation
  const LMat r = got.m.block(0, 0, 3, 3);
  PBT_CHECK(s, lclose(r * r.transpose(), LMat::Identity(3, 3), 1e-9), "not a rotation: ", gen::show(j));
}

// Along one fixed direction all increments commute, and the curve is the
// ordinary quintic Hermite interpolant.
template <typename G>
void hermite(Src &s) {
  typename G::TangentVector dir = G::TangentVector::Zero();
  const Vec3 ax = direction(s);
  const bool translate = G::DOF == 6 && s.coin();
  if (translate) {
    dir.template tail<3>() = ax;
  } else {
    dir.template head<3>() = ax;
    if constexpr (G::DOF == 6) {
      dir.template tail<3>() = ax * s.symmetric(5);  // Screw motion
    }
  }
  struct P {
    double t, x, d, d2;
  };
  std::vector<P> ps;
  TCurve<G> c;
  double t = s.symmetric(10);
  double x = s.symmetric(1);
  const size_t n = 2 + s.below(4);
  for (size_t i = 0; i < n; ++i) {
    const double dt = s.uniform(0.1, 3);
    P p{t, x, s.symmetric(2), s.symmetric(2)};
    ps.push_back(p);
    typename G::TangentVector v = dir * x;
    c.append({t, JetL<G>{G::exp(v), typename G::TangentVector(dir * p.d), typename G::TangentVector(dir * p.d2)}});
    s.note("t=", t, " x=", x, " d=", p.d, " d2=", p.d2);
    t += dt;
    x += s.symmetric(translate ? 100 : 3);  // Rotations by less than pi
  }
  s.nontrivial();
  const size_t i = s.below(n - 1);
  const double f = s.unit();
  const double dt = ps[i + 1].t - ps[i].t;
  const double tq = ps[i].t + f * dt;
  s.note("direction ", gen::show(Eigen::MatrixXd(dir)), " query ", tq);
  // Power basis from the boundary conditions, in normalised time
  const double u = (tq - ps[i].t) / dt;
  const double a0 = ps[i].x;
  const double a1 = ps[i].d * dt;
  const double a2 = ps[i].d2 * dt * dt / 2;
  const double X = ps[i + 1].x - a0 - a1 - a2;
  const double V = ps[i + 1].d * dt - a1 - 2 * a2;
  const double A = ps[i + 1].d2 * dt * dt - 2 * a2;
  const double a3 = 10 * X - 4 * V + A / 2;
  const double a4 = -15 * X + 7 * V - A;
  const double a5 = 6 * X - 3 * V + A / 2;
  const double want = a0 + u * (a1 + u * (a2 + u * (a3 + u * (a4 + u * a5))));
  const double wd = (a1 + u * (2 * a2 + u * (3 * a3 + u * (4 * a4 + u * 5 * a5)))) / dt;
  const double wd2 = (2 * a2 + u * (6 * a3 + u * (12 * a4 + u * 20 * a5))) / dt / dt;
  const JetL<G> j = c.point_at(tq);
  const LMat wm = ref_expm(hat(typename G::TangentVector(dir * want)));
  PBT_CHECK(s, lclose(matrix_of(j.frame_from_ref()).template cast<long double>(), wm, 1e-7), "pose ", gen::show(j), " should be at ", want);
  PBT_CHECK(s, close(j.d_frame_from_ref(), dir * wd, 1e-7 * (1 + 1 / dt)), "first derivative ", gen::show(j), " expected ", wd);
  PBT_CHECK(s, close(j.d2_frame_from_ref(), dir * wd2, 1e-7 * (1 + 1 / dt / dt)), "second derivative ", gen::show(j), " expected ", wd2);
}

// Histories of valid and invalid appends and queries.
template <typename G>
void history(Src &s) {
  Model<G> m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  TCurve<G> c;
  double t = s.symmetric(100);
  bool rejected = false;
  const size_t n = 3 + s.count(14, 250);
  for (size_t step = 0; step < n; ++step) {
    switch (s.weighted({4, 2, 2, 3, 2, 1})) {
      case 0: {
        t = m.pts.empty() ? t : s.chance(1, 6) ? std::nextafter(m.pts.back().time, HUGE_VAL) : m.pts.back().time + s.uniform(0.01, 10);
        const auto p = control(s, m, t, 1.);
        s.note("append t=", t);
        c.append(p);
        m.pts.push_back(p);
        break;
      }
      case 1: {  // Time not increasing
        if (m.pts.empty() || s.chance(1, 10)) {  // No time at all
          const double bad = s.pick(std::vector<double>{std::nan(""), HUGE_VAL, -HUGE_VAL});
          s.note("append at ", bad);
          const auto p = control(s, m, bad, 1.);
          PBT_CHECK(s, pbt::throws<AssertException>([&] { c.append(p); }), "a control point at ", bad, " was accepted");
          rejected = true;
          break;
        }
        const double last = m.pts.back().time;
        const double bad = s.chance(1, 8) ? s.pick(std::vector<double>{std::nan(""), -HUGE_VAL}) : s.coin() ? last : s.coin() ? std::nextafter(last, -1e300) : last - s.uniform(0, 100);
        s.note("append at non-increasing time ", bad);
        const auto p = control(s, m, bad, 1.);
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.append(p); }), "a control point at ", bad, " was accepted after one at ", last);
        rejected = true;
        break;
      }
      case 2: {  // Wrong frames
        if (m.pts.empty()) break;
        int how = 1 + static_cast<int>(s.below(4));
        s.note("append with frame error ", how);
        G g = frame_it(group<G>(s, 10.), m, how);
        const typename TCurve<G>::Control p{m.pts.back().time + 1, JetL<G>{g, G::TangentVector::Zero(), G::TangentVector::Zero()}};
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.append(p); }), "a control point with other frames was accepted, kind ", how);
        rejected = true;
        break;
      }
      case 3: {  // Query
        double q = 0;
        if (m.pts.empty()) {
          q = s.symmetric(10);
        } else {
          const double lo = m.pts.front().time;
          const double hi = m.pts.back().time;
          switch (s.below(6)) {
            case 5:
              q = s.pick(std::vector<double>{std::nan(""), HUGE_VAL, -HUGE_VAL, -std::nan("")});
              break;
            case 0:
              q = lo;
              break;
            case 1:
              q = hi;
              break;
            case 2:
              q = s.coin() ? std::nextafter(lo, -1e300) : std::nextafter(hi, 1e300);
              break;
            case 3:
              q = s.coin() ? lo - log_uniform(s, 1e-9, 1e3) : hi + log_uniform(s, 1e-9, 1e3);
              break;
            default:
              q = s.uniform(lo, hi);
          }
        }
        s.note("query ", q);
        const bool bad = m.pts.size() < 2 || !(q >= m.pts.front().time && q <= m.pts.back().time);
        bool threw = false;
        try {
          const JetL<G> j = c.point_at(q);
          same_frames(s, j.frame_from_ref(), m, "query");
        } catch (const AssertException &) {
          threw = true;
        }
        PBT_CHECK(s, threw == bad, "a query at ", q, bad ? " should be refused" : " should be answered");
        break;
      }
      case 4: {  // Metadata of what is there
        const bool e = m.pts.empty();
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.start_time(); }) == e, "start_time");
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.end_time(); }) == e, "end_time");
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.point_frame(); }) == e, "point_frame");
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.reference_frame(); }) == e, "reference_frame");
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.is_framed(); }) == e, "is_framed");
        break;
      }
      default: {  // A batch
        s.note("batch");
        const auto p = control(s, m, (m.pts.empty() ? t : m.pts.back().time) + 1, 1.);
        auto q = control(s, m, p.time + 0.5, 1.);
        if (s.chance(1, 3)) {  // The second of which is refused; the first may be kept
          q.time = p.time - (s.coin() ? 0. : 0.25);
          PBT_CHECK(s, pbt::throws<AssertException>([&] { c.append({p, q}); }), "a control point which is not later was accepted in a batch");
          if (c.control_pts().size() == m.pts.size() + 1) m.pts.push_back(p);
          rejected = true;
          break;
        }
        c.append({p, q});
        m.pts.push_back(p);
        m.pts.push_back(q);
      }
    }
    // The curve holds exactly the accepted control points
    PBT_CHECK(s, c.control_pts().size() == m.pts.size(), "number of control points");
    PBT_CHECK(s, c.segments().size() == (m.pts.empty() ? 0 : m.pts.size() - 1), "number of segments");
    for (size_t i = 0; i < m.pts.size(); ++i) {
      PBT_CHECK(s, c.control_pts()[i].time == m.pts[i].time, "control time");
      same_jet(s, c.control_pts()[i].point, m.pts[i].point, 0, 0, 0, "stored control point");
    }
    if (!m.pts.empty()) {
      PBT_CHECK(s, c.start_time() == m.pts.front().time && c.end_time() == m.pts.back().time, "start or end time");
    }
  }
  // ... and evaluates like a curve made from these
  if (m.pts.size() >= 2) {
    const TCurve<G> fresh(m.pts);
    const double q = s.uniform(m.pts.front().time, m.pts.back().time);
    same_jet(s, c.point_at(q), fresh.point_at(q), 0, 0, 0, "curve after its history at " + std::to_string(q));
  }
  if (rejected && m.pts.size() >= 2) {
    s.nontrivial();
  }
}

// A list of control points one of which does not belong: no constructor takes it.
template <typename G>
void built(Src &s) {
  Model<G> m = model<G>(s, 6, true);
  const size_t at = 1 + s.below(m.pts.size() - 1);
  auto pts = m.pts;
  const double last = pts[at - 1].time;
  const int how = static_cast<int>(s.below(7));
  switch (how) {
    case 0:
      pts[at].time = last;
      break;
    case 1:
      pts[at].time = s.coin() ? std::nextafter(last, -HUGE_VAL) : last - s.uniform(0, 10);
      break;
    case 2: {
      const double way = s.pick(std::vector<double>{std::nan(""), -HUGE_VAL, HUGE_VAL});
      pts[at].time = way;
      break;
    }
    default: {
      G g = frame_it(group<G>(s, 10.), m, how - 2);
      pts[at].point.set_frame_from_ref(g);
    }
  }
  s.note(show(m));
  s.note("point ", at, " made wrong, kind ", how);
  s.nontrivial();
  PBT_CHECK(s, pbt::throws<AssertException>([&] { TCurve<G> c(pts); }), "a vector of control points was accepted whose point ", at, " is wrong, kind ", how);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { TCurve<G> c{pts[at - 1], pts[at]}; }), "a list of control points was accepted whose second is wrong, kind ", how);
  if (at >= 2) {
    PBT_CHECK(s, pbt::throws<AssertException>([&] { TCurve<G> c{pts[at - 2], pts[at - 1], pts[at]}; }), "a list of control points was accepted whose third is wrong, kind ", how);
  }
  // Without the wrong point it is a curve
  const TCurve<G> c(std::vector<typename TCurve<G>::Control>(m.pts.begin(), m.pts.begin() + static_cast<long>(at)));
  PBT_CHECK(s, c.control_pts().size() == at && c.segments().size() == at - 1, "a curve from the points before it");
}

// A segment alone: boundary conditions and frame checks
template <typename G>
void segment(Src &s) {
  Model<G> m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  const auto a = control(s, m, 0, 1.);
  const auto b = control(s, m, 1, 1.);
  s.note(gen::show(a.point), "\n", gen::show(b.point));
  s.nontrivial();
  const TCurveSegment<G> seg{a.point, b.point};
  const double mag = 1 + matrix_of(a.point.frame_from_ref()).cwiseAbs().maxCoeff() + matrix_of(b.point.frame_from_ref()).cwiseAbs().maxCoeff();
  const double e = 1e-11 * mag * mag;
  same_jet(s, seg.point_at(0), a.point, e, e, e, "origin");
  same_jet(s, seg.point_at(1), b.point, e, e, e, "destination");
  same_jet(s, seg.orig(), a.point, 0, 0, 0, "origin getter");
  same_jet(s, seg.dest(), b.point, 0, 0, 0, "destination getter");
  same_frames(s, seg.point_at(s.unit()).frame_from_ref(), m, "segment query");
  PBT_CHECK(s, seg.is_framed() == m.framed, "is_framed");
  const Frame none = Frame::null_frame();
  PBT_CHECK(s, seg.point_frame() == (m.framed ? m.fr[0] : none) && seg.reference_frame() == (m.framed ? m.fr[1] : none), "frames of the segment");
  const int how = 1 + static_cast<int>(s.below(4));
  JetL<G> bad = b.point;
  bad.set_frame_from_ref(frame_it(G{matrix_of(bad.frame_from_ref()).isZero(0) ? G{} : G::identity()}, m, how));
  PBT_CHECK(s, pbt::throws<AssertException>([&] { TCurveSegment<G>(a.point, bad); }), "segment with mismatched frames accepted, kind ", how);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { TCurveSegment<G>(bad, a.point); }), "segment with mismatched frames accepted, kind ", how);
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C07",
      "curves of 2-8 control points of random poses/rotations (angles 0..pi), derivatives over many scales, time steps "
      "over 1e-12..1e12 and down to neighbouring doubles, with offsets, built through every constructor; values, first and second derivatives compared with the "
      "control points, with sixth-order finite differences of the returned poses, and (on commuting motions) with the "
      "unique quintic Hermite interpolant; histories mix valid and rejected appends with queries; non-trivial: more than "
      "one segment / a rejected append followed by a usable curve / an interior query",
      {
          {"quintic", quintic, 50000, 1000000},
          {"interpolates_se3", interpolates<SE3>, 3000, 150000},
          {"interpolates_so3", interpolates<SO3>, 3000, 150000},
          {"near_times_se3", near_times<SE3>, 4000, 150000},
          {"near_times_so3", near_times<SO3>, 4000, 150000},
          {"derivatives_se3", derivatives<SE3>, 6000, 300000},
          {"derivatives_so3", derivatives<SO3>, 6000, 300000},
          {"hermite_se3", hermite<SE3>, 8000, 300000},
          {"hermite_so3", hermite<SO3>, 8000, 300000},
          {"history_se3", history<SE3>, 4000, 150000},
          {"history_so3", history<SO3>, 4000, 150000},
          {"built_se3", built<SE3>, 6000, 200000},
          {"built_so3", built<SO3>, 6000, 200000},
          {"segment_se3", segment<SE3>, 8000, 300000},
          {"segment_so3", segment<SO3>, 8000, 300000},
      },
      {"control derivatives are moderate relative to the segment duration, so finite differences resolve the curve"}};
}
