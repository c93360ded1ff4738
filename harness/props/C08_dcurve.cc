// C08: arc-length parameterized curves.
// @quick_scale: 4
#include "gen.hh"
#include "resim/curves/d_curve.hh"

namespace {
using namespace gen;
using DCurve = resim::curves::DCurve<SE3>;

struct Model {
  bool framed = false;
  std::vector<Frame> fr;
  std::vector<SE3> pts;       // Exactly what is handed to the curve
  std::vector<Vec6> steps;    // steps[i] leads from pts[i] to pts[i+1]
  std::vector<double> at;     // Expected arc length of every control point
  double scale = 1;  // Of all lengths
  double mag = 1;    // Of the positions
};

SE3 frame_it(SE3 g, const Model &m, int how = 0) {
  switch (how) {
    case 0:
      if (m.framed) g.set_frames(m.fr[0], m.fr[1]);
      break;
    case 1:
      g.set_frames(m.fr[1], m.fr[0]);
      break;
    case 2:
      g.set_frames(m.fr[2], m.fr[1]);
      break;
    case 3:
      g.set_frames(m.fr[0], m.fr[2]);
      break;
    default:
      break;  // Unframed
  }
  return g;
}

SE3 se3_of(const LMat &m) {
  const Eigen::Matrix3d r = m.block(0, 0, 3, 3).cast<double>();
  const Vec3 t = m.block(0, 3, 3, 1).cast<double>();
  return SE3{SO3{r}, t};
}

// The next pose, reached from the last one along a known geodesic
Vec6 step(Src &s, double scale) {
  Vec6 v = Vec6::Zero();
  v.head<3>() = direction(s) * (s.coin() ? s.pick(std::vector<double>{0., 1., 0.3, 2.5, 1e-4, M_PI - 0.01}) : s.uniform(0, M_PI - 0.01));
  double len = 0;
  switch (s.weighted({4, 2, 1, 2, 1})) {
    case 0:
      len = s.uniform(0.1, 10);
      break;
    case 1:
      len = log_uniform(s, 1e-2, 100);
      break;
    case 2:
      len = 1;
      break;
    case 3:
      len = 0;
      break;
    default:
      len = log_uniform(s, 1e-9, 1e-2);
  }
  if (len == 0 && s.coin()) {
    v.setZero();
  }
  v.tail<3>() = len * scale * direction(s);
  return v;
}

void add(Src &s, Model &m) {
  if (m.pts.empty()) {
    m.pts.push_back(frame_it(SE3{so3(s), Vec3(m.scale * vec3(s, 100))}, m));
    m.at.push_back(0);
  } else {
    const Vec6 v = step(s, m.scale);
    if (v.isZero(0)) {
      m.pts.push_back(m.pts.back());
    } else {
      const LMat next = matrix_of(m.pts.back()).cast<long double>() * ref_expm(hat(v));
      m.pts.push_back(frame_it(se3_of(next), m));
    }
    m.steps.push_back(v);
    m.at.push_back(m.at.back() + v.tail<3>().norm());
  }
  m.mag = std::max(m.mag, m.scale + m.pts.back().translation().norm());
}

std::string show(const Model &m) {
  std::string out = m.framed ? "framed start " : "unframed start ";
  if (!m.pts.empty()) out += gen::show(m.pts[0]);
  for (const auto &v : m.steps) {
    out += "\n  then " + gen::show(Eigen::MatrixXd(v));
  }
  return out;
}

DCurve make(Src &s, const Model &m) {
  switch (s.below(4)) {
    case 0:
      return DCurve(m.pts);
    case 1: {
      DCurve c;
      for (const auto &p : m.pts) c.append(p);
      return c;
    }
    case 2: {
      if (m.pts.size() == 2) return DCurve{m.pts[0], m.pts[1]};
      if (m.pts.size() == 3) return DCurve{m.pts[0], m.pts[1], m.pts[2]};
      DCurve c{m.pts[0]};
      for (size_t i = 1; i < m.pts.size(); ++i) c.append({m.pts[i]});
      return c;
    }
    default: {
      DCurve c;
      c.append({m.pts[0], m.pts[1]});
      for (size_t i = 2; i < m.pts.size(); ++i) c.append(m.pts[i]);
      return c;
    }
  }
}

// Rotations and positions within their own tolerances
bool near(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, double rot, double pos) {
  return a.allFinite() && b.allFinite() && (a.block(0, 0, 3, 3) - b.block(0, 0, 3, 3)).cwiseAbs().maxCoeff() <= rot && (a.block(0, 3, 3, 1) - b.block(0, 3, 3, 1)).cwiseAbs().maxCoeff() <= pos;
}

void structure(Src &s, const DCurve &c, const Model &m, double tol) {
  PBT_CHECK(s, c.control_pts().size() == m.pts.size(), "number of control points");
  PBT_CHECK(s, c.segments().size() + 1 == m.pts.size() || m.pts.empty(), "number of segments");
  PBT_CHECK(s, std::abs(c.curve_length() - (m.at.empty() ? 0 : m.at.back())) <= tol, "curve length ", c.curve_length(), " expected ", m.at.empty() ? 0 : m.at.back());
  for (size_t i = 0; i < m.pts.size(); ++i) {
    PBT_CHECK(s, std::abs(c.control_pts()[i].arc_length - m.at[i]) <= tol, "arc length of control point ", i, " is ", c.control_pts()[i].arc_length, " expected ", m.at[i]);
    PBT_CHECK(s, matrix_of(*c.control_pts()[i].ref_from_control) == matrix_of(m.pts[i]), "control point ", i, " is not the one given");
    PBT_CHECK(s, c.control_pts()[i].ref_from_control->verify_frames(m.pts[i].into(), m.pts[i].from()), "frames of control point ", i);
    if (i > 0) {
      const auto &seg = c.segments()[i - 1];
      PBT_CHECK(s, seg.orig_arc_length == c.control_pts()[i - 1].arc_length && seg.dest_arc_length == c.control_pts()[i].arc_length, "segment arc lengths");
      PBT_CHECK(s, matrix_of(*seg.ref_from_orig) == matrix_of(m.pts[i - 1]) && matrix_of(*seg.ref_from_dest) == matrix_of(m.pts[i]), "segment end points");
      PBT_CHECK(s, near(matrix_of(seg.orig_from_dest), matrix_of(m.pts[i - 1].inverse() * m.pts[i]), 1e-10, 1e-10 * m.mag), "relative pose of segment ", i - 1);
    }
  }
  if (m.pts.empty()) {
    PBT_CHECK(s, pbt::throws<AssertException>([&] { c.is_framed(); }) && pbt::throws<AssertException>([&] { c.reference_frame(); }) && pbt::throws<AssertException>([&] { c.point_frame(); }),
              "frames of an empty curve");
  } else {
    const Frame none = Frame::null_frame();
    PBT_CHECK(s, c.is_framed() == m.framed, "is_framed");
    PBT_CHECK(s, c.reference_frame() == (m.framed ? m.fr[0] : none) && c.point_frame() == (m.framed ? m.fr[1] : none), "frames of the curve");
  }
}

void set_scale(Src &s, Model &m) {
  m.scale = s.pick(std::vector<double>{1., 1., 1., 1e-3, 1e-6, 1e3});
  m.mag = m.scale;
}

Model model(Src &s, size_t max) {
  Model m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  set_scale(s, m);
  const size_t n = 2 + s.count(max - 1, 60);
  for (size_t i = 0; i < n; ++i) add(s, m);
  return m;
}

void queries(Src &s) {
  Model m = model(s, 8);
  s.note(show(m));
  const DCurve c = make(s, m);
  const double tol = 1e-9 * m.mag;
  structure(s, c, m, tol);
  size_t zero = 0;
  for (const auto &v : m.steps) zero += v.tail<3>().isZero(0) ? 1 : 0;
  if (zero > 0) s.label("zero-length segment");
  if (m.pts.size() > 2) s.nontrivial();
  // Control points are on the curve, at their arc lengths. Where several share
  // one (no translation between them) any of these is right.
  for (size_t i = 0; i < m.pts.size(); ++i) {
    const SE3 p = c.point_at(c.control_pts()[i].arc_length);
    bool hit = false;
    for (size_t j = 0; j < m.pts.size(); ++j) {
      hit = hit || (std::abs(m.at[j] - m.at[i]) <= tol && near(matrix_of(p), matrix_of(m.pts[j]), 1e-7, 1e-7 * m.mag));
    }
    PBT_CHECK(s, hit, "at the arc length of control point ", i, " the curve is at ", gen::show(p), " instead of ", gen::show(m.pts[i]));
    PBT_CHECK(s, p.verify_frames(m.pts[i].into(), m.pts[i].from()), "frames of the queried pose");
  }
  // Between control points the curve follows the geodesic at unit speed
  for (int k = 0; k < 4; ++k) {
    const size_t i = s.below(m.steps.size());
    const double len = m.steps[i].tail<3>().norm();
    // What the rounding of the query and of the segment's length makes of the rotation
    const double e = 1e-11 + 1e-13 * (m.mag + c.curve_length()) / len;
    if (len == 0 || e > 1e-3) continue;
    if (len < 1e-3) s.label("query within a short segment");
    // Also very close to either end
    const double gap = log_uniform(s, 1e-12, 1e-1);
    const double f = s.pick(std::vector<double>{s.unit(), s.unit(), 0.5, gap, 1 - gap});
    const auto &ctl = c.control_pts();
    const double q = std::min(ctl[i].arc_length + f * (ctl[i + 1].arc_length - ctl[i].arc_length), ctl[i + 1].arc_length);
    if (q <= ctl[i].arc_length || q >= ctl[i + 1].arc_length) continue;  // A control point, which may turn on the spot
    const LMat want = matrix_of(m.pts[i]).cast<long double>() * ref_expm(hat(Vec6(m.steps[i] * f)));
    const SE3 p = c.point_at(q);
    PBT_CHECK(s, near(matrix_of(p), want.cast<double>(), 10 * e, 10 * e * len + 1e-11 * m.mag), "at arc length ", q, " (", f, " of segment ", i, ") the curve is at ", gen::show(p),
              " expected ", gen::show(Eigen::MatrixXd(want.cast<double>())));
    PBT_CHECK(s, p.verify_frames(m.pts[i].into(), m.pts[i].from()), "frames of the queried pose");
  }
  // No shortcut or jump in position anywhere: the chord is never longer than the arc.
  for (int k = 0; k < 4; ++k) {
    const double a = c.curve_length() * s.unit();
    const double b = s.coin() ? c.curve_length() * s.unit() : std::min(c.curve_length(), a + c.curve_length() * 1e-7);
    const double chord = (c.point_at(a).translation() - c.point_at(b).translation()).norm();
    PBT_CHECK(s, chord <= std::abs(a - b) + 1e-7 * m.mag, "positions at ", a, " and ", b, " are ", chord, " apart");
  }
}

void history(Src &s) {
  Model m;
  m.framed = s.coin();
  m.fr = frames(s, 3);
  set_scale(s, m);
  DCurve c;
  const size_t n = 3 + s.count(14, 150);
  bool rejected = false;
  for (size_t k = 0; k < n; ++k) {
    switch (s.weighted({4, 2, 3, 1})) {
      case 0: {
        add(s, m);
        s.note("append");
        c.append(m.pts.back());
        break;
      }
      case 1: {  // Wrong frames on a framed curve
        if (m.pts.empty() || !m.framed) break;
        const int how = 1 + static_cast<int>(s.below(4));
        s.note("append with frame error ", how);
        SE3 g = frame_it(se3(s, 10), m, how);
        PBT_CHECK(s, pbt::throws<AssertException>([&] { c.append(g); }), "a control point with other frames was accepted, kind ", how);
        rejected = true;
        break;
      }
      case 2: {
        double q = 0;
        const double len = c.curve_length();
        switch (s.below(6)) {
          case 5:
            q = s.pick(std::vector<double>{std::nan(""), HUGE_VAL, -HUGE_VAL, -std::nan("")});
            break;
          case 0:
            q = 0;
            break;
          case 1:
            q = len;
            break;
          case 2:
            q = s.coin() ? -1e-300 : std::nextafter(len, 1e300);
            break;
          case 3:
            q = s.coin() ? -log_uniform(s, 1e-9, 1e3) : len + log_uniform(s, 1e-9, 1e3);
            break;
          default:
            q = s.uniform(0, len);
        }
        s.note("query ", q, " of ", len);
        const bool bad = !(q >= 0 && q <= len);
        if (!bad && m.pts.size() == 1) break;  // A single point is not yet a curve
        bool threw = false;
        try {
          const SE3 p = c.point_at(q);
          PBT_CHECK(s, matrix_of(p).allFinite(), "the pose at ", q, " is not finite");
          PBT_CHECK(s, p.verify_frames(m.pts.back().into(), m.pts.back().from()), "frames of the queried pose");
        } catch (const AssertException &) {
          threw = true;
        }
        PBT_CHECK(s, threw == (bad || m.pts.empty()), "a query at ", q, " of ", len, bad ? " should be refused" : " should be answered");
        break;
      }
      default: {
        s.note("batch");
        if (m.framed && s.chance(1, 3)) {  // The second of which is refused; the first may be kept
          Model longer = m;
          add(s, longer);
          const SE3 bad = frame_it(se3(s, 10), m, 1 + static_cast<int>(s.below(4)));
          PBT_CHECK(s, pbt::throws<AssertException>([&] { c.append({longer.pts.back(), bad}); }), "a control point with other frames was accepted in a batch");
          if (c.control_pts().size() == longer.pts.size()) m = longer;
          rejected = true;
          break;
        }
        add(s, m);
        const SE3 a = m.pts.back();
        add(s, m);
        c.append({a, m.pts.back()});
      }
    }
    structure(s, c, m, 1e-9 * m.mag);
  }
  if (rejected && m.pts.size() >= 2) s.nontrivial();
  if (m.pts.size() >= 2) {
    // Copies are independent of the original
    DCurve copy = c;
    const double q = c.curve_length() * s.unit();
    const SE3 before = c.point_at(q);
    copy.append(m.pts.front());
    PBT_CHECK(s, c.control_pts().size() == m.pts.size(), "appending to a copy changed the original");
    PBT_CHECK(s, matrix_of(c.point_at(q)) == matrix_of(before) && near(matrix_of(copy.point_at(q)), matrix_of(before), 1e-9, 1e-9 * m.mag), "appending changed the earlier part of the curve");
  }
}
// A list of poses one of which has other frames: no constructor takes it.
void built(Src &s) {
  Model m;
  m.framed = true;
  m.fr = frames(s, 3);
  set_scale(s, m);
  const size_t n = 2 + s.below(5);
  for (size_t i = 0; i < n; ++i) add(s, m);
  auto pts = m.pts;
  const size_t at = 1 + s.below(n - 1);
  const int how = 1 + static_cast<int>(s.below(4));
  pts[at] = frame_it(se3(s, 10), m, how);
  s.note("pose ", at, " of ", n, " made wrong, kind ", how);
  s.nontrivial();
  PBT_CHECK(s, pbt::throws<AssertException>([&] { DCurve c(pts); }), "a vector of poses was accepted whose pose ", at, " has other frames, kind ", how);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { DCurve c{pts[at - 1], pts[at]}; }), "a list of poses was accepted whose second has other frames, kind ", how);
  if (at >= 2) {
    PBT_CHECK(s, pbt::throws<AssertException>([&] { DCurve c{pts[at - 2], pts[at - 1], pts[at]}; }), "a list of poses was accepted whose third has other frames, kind ", how);
  }
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C08",
      "curves of 2-8 poses generated by chaining known geodesics (angle 0..pi-0.01, length 0 and 1e-9..100, at scales 1e-6..1e3), framed and "
      "unframed, built through every constructor; arc lengths and queried poses compared with an extended-precision matrix "
      "exponential along the generating geodesic; chord <= arc; histories mix appends, rejected appends and queries in and "
      "out of range; non-trivial: more than one segment / a rejected append followed by a usable curve",
      {
          {"queries", queries, 12000, 600000},
          {"history", history, 8000, 300000},
          {"built", built, 8000, 200000},
      },
      {"framed poses appended to an unframed curve are outside the domain", "a curve of a single point is not queried"}};
}
