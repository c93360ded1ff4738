// C06: the algebra of two jets is the calculus of moving transforms.
// @quick_scale: 1.5
#include "jets.hh"

namespace {
using namespace gen;

template <typename J>
struct Api;
template <typename G>
struct Api<JetL<G>> {
  using Group = G;
  using Other = JetR<G>;
  static const G &g(const JetL<G> &j) { return j.frame_from_ref(); }
  static const auto &d(const JetL<G> &j) { return j.d_frame_from_ref(); }
  static const auto &d2(const JetL<G> &j) { return j.d2_frame_from_ref(); }
  static void set(JetL<G> &j, int what, const JetL<G> &o) {
    if (what == 0) j.set_frame_from_ref(o.frame_from_ref());
    if (what == 1) j.set_d_frame_from_ref(o.d_frame_from_ref());
    if (what == 2) j.set_d2_frame_from_ref(o.d2_frame_from_ref());
  }
  static Other convert(const JetL<G> &j) { return j.right_two_jet(); }
  static JetL<G> make(Src &s, double sc) { return jetl<G>(s, sc); }
};
template <typename G>
struct Api<JetR<G>> {
  using Group = G;
  using Other = JetL<G>;
  static const G &g(const JetR<G> &j) { return j.ref_from_frame(); }
  static const auto &d(const JetR<G> &j) { return j.d_ref_from_frame(); }
  static const auto &d2(const JetR<G> &j) { return j.d2_ref_from_frame(); }
  static void set(JetR<G> &j, int what, const JetR<G> &o) {
    if (what == 0) j.set_ref_from_frame(o.ref_from_frame());
    if (what == 1) j.set_d_ref_from_frame(o.d_ref_from_frame());
    if (what == 2) j.set_d2_ref_from_frame(o.d2_ref_from_frame());
  }
  static Other convert(const JetR<G> &j) { return j.left_two_jet(); }
  static JetR<G> make(Src &s, double sc) { return jetr<G>(s, sc); }
};

double grow(const MJet &a) { return 1 + maxabs(a.m) + maxabs(a.d) + maxabs(a.d2); }

// The jet's matrix function must agree with the reference one.
template <typename J>
void agree(Src &s, const J &j, const MJet &want, double scale, const char *what) {
  const MJet got = mjet(j);
  const double tol = 1e-12 * scale;
  PBT_CHECK(s, lclose(got.m, want.m, tol), what, ": transform of ", show(j));
  PBT_CHECK(s, lclose(got.d, want.d, tol), what, ": first derivative of ", show(j), " error ", maxabs(got.d - want.d));
  PBT_CHECK(s, lclose(got.d2, want.d2, tol), what, ": second derivative of ", show(j), " error ", maxabs(got.d2 - want.d2));
}

template <typename J>
void algebra(Src &s) {
  using A = Api<J>;
  const double scale = s.coin() ? 10 : 1e3;
  const J a = A::make(s, scale);
  const J b = A::make(s, scale);
  const J c = A::make(s, scale);
  s.note("a=", show(a), "\nb=", show(b), "\nc=", show(c));
  const MJet ma = mjet(a);
  const MJet mb = mjet(b);
  if (A::d(a).norm() > 1e-3 && A::d(b).norm() > 1e-3 && A::g(a).log().norm() > 1e-3) {
    s.nontrivial();
  }
  // Composition is the product rule
  const double sab = grow(ma) * grow(mb) * grow(ma);
  agree(s, a * b, ma * mb, sab, "composition");
  // ... also of a jet with itself, and with the result put over an operand
  agree(s, a * a, ma * ma, grow(ma) * grow(ma) * grow(ma), "composition with itself");
  {
    J x = a;
    x = x * b;
    agree(s, x, ma * mb, sab, "composition assigned over its left operand");
    x = b;
    x = a * x;
    agree(s, x, ma * mb, sab, "composition assigned over its right operand");
    x = a;
    x = x * x;
    agree(s, x, ma * ma, grow(ma) * grow(ma) * grow(ma), "square assigned over itself");
  }
  // Inversion
  const double sa3 = grow(ma) * grow(ma) * grow(ma) * grow(ma);
  agree(s, a.inverse(), inverse(ma), sa3, "inverse");
  agree(s, a.inverse() * a, MJet{LMat::Identity(ma.m.rows(), ma.m.rows()), LMat::Zero(ma.m.rows(), ma.m.rows()), LMat::Zero(ma.m.rows(), ma.m.rows())},
        sa3, "inverse times itself");
  agree(s, a * a.inverse(), MJet{LMat::Identity(ma.m.rows(), ma.m.rows()), LMat::Zero(ma.m.rows(), ma.m.rows()), LMat::Zero(ma.m.rows(), ma.m.rows())},
        sa3, "times inverse");
  // Conversion between the tangent spaces is the motion of the inverse
  agree(s, A::convert(a), inverse(ma), sa3, "left/right conversion");
  agree(s, Api<typename A::Other>::convert(A::convert(a)), ma, sa3, "conversion and back");
  // Identity
  const Frame none = Frame::null_frame();
  agree(s, J::identity(none, none) * a, ma, grow(ma), "identity from the left");
  agree(s, a * J::identity(none, none), ma, grow(ma), "identity from the right");
  agree(s, J{} * a, ma, grow(ma), "a default constructed jet is the identity");
  // Associativity
  agree(s, (a * b) * c, mjet(a * (b * c)), sab * grow(mjet(c)) * grow(mb), "associativity");
  // Setters change one member and leave the others alone
  J x = a;
  bool from_b[3] = {false, false, false};
  const int steps = static_cast<int>(s.below(5));
  for (int i = 0; i < steps; ++i) {
    const int w = static_cast<int>(s.below(3));
    const bool tob = s.coin();
    A::set(x, w, tob ? b : a);
    from_b[w] = tob;
  }
  const J &g0 = from_b[0] ? b : a;
  PBT_CHECK(s, matrix_of(A::g(x)) == matrix_of(A::g(g0)), "setting the transform");
  PBT_CHECK(s, A::d(x) == A::d(from_b[1] ? b : a), "setting the first derivative");
  PBT_CHECK(s, A::d2(x) == A::d2(from_b[2] ? b : a), "setting the second derivative");
}

template <typename J>
void approx(Src &s) {
  using A = Api<J>;
  using G = typename A::Group;
  using T = typename G::TangentVector;
  const J a = A::make(s, 100);
  PBT_CHECK(s, a.is_approx(a), "a jet is not approximately itself ", show(a));
  T d = A::d(a);
  T d2 = A::d2(a);
  G g = A::g(a);
  const int what = static_cast<int>(s.below(3));
  const double rel = log_uniform(s, 1e-6, 10);
  const T dir = tangent<G>(s, 1.).normalized();
  if (!(dir.norm() > 0.5)) {
    return;
  }
  if (what == 0) {
    double m = 1 + matrix_of(g).cwiseAbs().maxCoeff();
    g = G::exp(dir * std::min(0.5, rel) * m) * g;
  } else if (what == 1) {
    d += dir * rel * (1 + d.norm());
  } else {
    d2 += dir * rel * (1 + d2.norm());
  }
  if (what == 0 && (matrix_of(g) - matrix_of(A::g(a))).norm() < 1e-7 * (1 + matrix_of(g).norm())) {
    return;
  }
  s.nontrivial();
  const J b{g, d, d2};
  s.note("a=", show(a), " b=", show(b), " differ in ", what);
  PBT_CHECK(s, !a.is_approx(b) && !b.is_approx(a), "different jets are reported equal");
  // Relative changes at rounding level are not differences.
  const double e = 1 + s.symmetric(1e-14);
  const J near{A::g(a), T(A::d(a) * e), T(A::d2(a) * e)};
  PBT_CHECK(s, a.is_approx(near) && near.is_approx(a), "rounding-level differences are reported as differences");
}

template <typename J>
void jet_frames(Src &s) {
  using A = Api<J>;
  using G = typename A::Group;
  auto fr = frames(s, 3);
  fr.push_back(Frame::null_frame());
  const auto framed = [&](J j, size_t into, size_t from) {
    G g = A::g(j);
    if (into != 3) {
      g.set_frames(fr[into], fr[from]);
    } else {
      g.set_unframed();
    }
    J tmp{g, A::d(j), A::d2(j)};
    return tmp;
  };
  const bool uf_a = s.chance(1, 6);
  const bool uf_b = s.chance(1, 6);
  const size_t ai = uf_a ? 3 : s.below(3);
  const size_t af = uf_a ? 3 : s.below(3);
  const size_t bi = uf_b ? 3 : s.below(3);
  const size_t bf = uf_b ? 3 : s.below(3);
  const J a = framed(A::make(s, 10), ai, af);
  const J b = framed(A::make(s, 10), bi, bf);
  const bool both = !uf_a && !uf_b;
  const bool ok = !both || af == bi;
  s.note("a: ", ai, "_from_", af, "  b: ", bi, "_from_", bf);
  if (!ok || ai != bf) {
    s.nontrivial();
  }
  bool threw = false;
  try {
    const J c = a * b;
    PBT_CHECK(s, A::g(c).into().id().id() == fr[both ? ai : 3].id().id() && A::g(c).from().id().id() == fr[both ? bf : 3].id().id(),
              "frames of the composition");
  } catch (const AssertException &) {
    threw = true;
  }
  PBT_CHECK(s, threw == !ok, "composition must fail exactly when inner frames differ; threw=", threw);
  {
    const bool fine = uf_a || ai == af;
    bool self = false;
    try {
      const J c = a * a;
      PBT_CHECK(s, A::g(c).into().id().id() == fr[ai].id().id() && A::g(c).from().id().id() == fr[af].id().id(), "frames of the square");
    } catch (const AssertException &) {
      self = true;
    }
    PBT_CHECK(s, self == !fine, "composing a jet with itself must fail exactly when its frames differ; threw=", self);
    J x = a;
    x = b;
    PBT_CHECK(s, A::g(x).into().id().id() == fr[bi].id().id() && A::g(x).from().id().id() == fr[bf].id().id(), "frames after assignment");
    A::set(x, 0, a);
    PBT_CHECK(s, A::g(x).into().id().id() == fr[ai].id().id() && A::g(x).from().id().id() == fr[af].id().id(), "frames after setting the transform");
  }
  const J ia = a.inverse();
  PBT_CHECK(s, A::g(ia).into().id().id() == fr[af].id().id() && A::g(ia).from().id().id() == fr[ai].id().id(), "frames of the inverse");
  const auto ca = A::convert(a);
  const auto &cg = Api<typename A::Other>::g(ca);
  PBT_CHECK(s, cg.into().id().id() == fr[af].id().id() && cg.from().id().id() == fr[ai].id().id(), "frames of the conversion");
  if (!uf_a) {
    const Frame &fi = fr[ai];
    const Frame &ff = fr[af];
    const J id = J::identity(fi, ff);
    PBT_CHECK(s, A::g(id).into().id().id() == fi.id().id() && A::g(id).from().id().id() == ff.id().id(), "frames of the identity");
    PBT_CHECK(s, A::d(id).isZero(0) && A::d2(id).isZero(0) && matrix_of(A::g(id)) == matrix_of(G::identity()), "identity is not at rest");
  }
  // approximate equality distinguishes frames
  const J b2 = framed(a, bi, bf);
  PBT_CHECK(s, a.is_approx(b2) == (fr[ai].id().id() == fr[bi].id().id() && fr[af].id().id() == fr[bf].id().id()),
            "approximate equality and frames");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C06",
      "jets of moving rotations and poses in both tangent conventions, with angles 0..pi, translations and derivatives "
      "over many scales; compositions, inverses and conversions compared with an extended-precision model of a matrix "
      "function of time and its first two derivatives (product rule), frame tuples from a pool of similar ids; "
      "non-trivial: both first derivatives and the transform are non-zero / the frames differ",
      {
          {"algebra_left_se3", algebra<JetL<SE3>>, 40000, 1500000},
          {"algebra_right_se3", algebra<JetR<SE3>>, 40000, 1500000},
          {"algebra_left_so3", algebra<JetL<SO3>>, 40000, 1500000},
          {"algebra_right_so3", algebra<JetR<SO3>>, 40000, 1500000},
          {"approx_left_se3", approx<JetL<SE3>>, 10000, 300000},
          {"approx_right_se3", approx<JetR<SE3>>, 10000, 300000},
          {"approx_left_so3", approx<JetL<SO3>>, 10000, 300000},
          {"approx_right_so3", approx<JetR<SO3>>, 10000, 300000},
          {"frames_left_se3", jet_frames<JetL<SE3>>, 10000, 300000},
          {"frames_right_se3", jet_frames<JetR<SE3>>, 10000, 300000},
          {"frames_left_so3", jet_frames<JetL<SO3>>, 10000, 300000},
          {"frames_right_so3", jet_frames<JetR<SO3>>, 10000, 300000},
      },
      {"the reference is evaluated in 80-bit extended precision; tolerances scale with the operands"}};
}
