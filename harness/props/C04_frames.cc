// C04: frame safety.
// @quick_scale: 15
#include "gen.hh"

namespace {
using namespace gen;
using Id = std::array<unsigned char, 16>;

struct MFrames {  // Model: nullopt-like null ids
  Id into{};
  Id from{};
};
const Id NUL{};

bool null(const Id &i) { return i == NUL; }

template <typename G>
bool frames_are(const G &g, const MFrames &m) {
  return g.into().id().id() == m.into && g.from().id().id() == m.from;
}

template <typename G>
std::string showf(const G &g) {
  return "into=" + g.into().id().to_string() + " from=" + g.from().id().to_string();
}

template <typename G>
void check_frames(Src &s, const G &g, const MFrames &m, const char *what) {
  PBT_CHECK(s, frames_are(g, m), what, ": frames ", showf(g), " expected into=", Frame(UUID(m.into)).id().to_string(), " from=", Frame(UUID(m.from)).id().to_string());
  PBT_CHECK(s, g.is_framed() == !null(m.into), what, ": is_framed");
  PBT_CHECK(s, g.verify_into(Frame{UUID{m.into}}) && g.verify_from(Frame{UUID{m.from}}) && g.verify_frames(Frame{UUID{m.into}}, Frame{UUID{m.from}}), what, ": verify");
  if constexpr (std::is_same_v<G, SE3>) {
    PBT_CHECK(s, !g.rotation().is_framed(), what, ": the rotation part of a pose carries frames");
  }
}

SO3 plain(Src &s, const SO3 *) { return so3(s, true); }
SE3 plain(Src &s, const SE3 *) { return se3(s, 10, true); }

template <typename G>
G framed(const G &g, const Frame &into, const Frame &from) {
  if constexpr (std::is_same_v<G, SO3>) {
    return SO3{g.rotation_matrix(), into, from};
  } else {
    return SE3{g.rotation(), g.translation(), into, from};
  }
}

// A history of operations on a pool of transforms with a model of their frames.
template <typename G>
void history(Src &s) {
  std::vector<Frame> pool = frames(s, 3);
  pool.insert(pool.begin(), s.coin() ? Frame{} : Frame::null_frame());
  const auto any = [&]() -> const Frame & { return pool[s.below(pool.size())]; };
  struct Item {
    G g;
    MFrames m;
  };
  std::vector<Item> items;
  items.push_back({G{}, {}});
  const size_t n = 3 + s.below(25);
  bool saw_throw = false;
  bool saw_framed_compose = false;
  for (size_t step = 0; step < n; ++step) {
    const size_t i = s.below(items.size());
    const size_t j = s.below(items.size());
    Item a = items[i];
    const Item b = items[j];
    switch (s.below(15)) {
      case 0:
      case 1: {  // Construct framed, in several ways
        const Frame into = any();
        const Frame from = any();
        const bool bad = into.is_null() != from.is_null();
        const G base = plain(s, static_cast<G *>(nullptr));
        const size_t how = s.below(7);
        s.note("construct ", how, " into=", into.id().to_string(), " from=", from.id().to_string());
        G g{};
        const bool threw = pbt::throws<AssertException>([&] {
          switch (how) {
            case 0:
              g = framed(base, into, from);
              break;
            case 1:
              g = G::identity(into, from);
              break;
            case 2:
              g = G::exp(base.log(), into, from);
              break;
            case 3:
              g = G::exp(base.log(), Frame{into}, Frame{from});
              break;
            case 4:
              g = G::identity(Frame{into}, from);
              break;
            case 5:
              if constexpr (std::is_same_v<G, SO3>) {
                g = SO3{base.quaternion(), into, from};
              } else {
                g = SE3{base.translation(), into, from};
              }
              break;
            default:
              if constexpr (std::is_same_v<G, SO3>) {
                g = SO3{0.5, Vec3::UnitX(), into, from};
              } else {
                // Frames of the rotation are stripped
                SO3 r{base.rotation()};
                r.set_frames(pool[1], pool[2]);
                g = SE3{r, into, from};
              }
          }
        });
        PBT_CHECK(s, threw == bad, "construction with semi-null frames must fail, others must not; threw=", threw);
        saw_throw = saw_throw || threw;
        if (!threw) {
          items.push_back({g, {into.id().id(), from.id().id()}});
          check_frames(s, g, items.back().m, "construct");
        }
        break;
      }
      case 2: {  // Unframed
        G g = plain(s, static_cast<G *>(nullptr));
        s.note("construct unframed");
        items.push_back({g, {}});
        check_frames(s, g, {}, "unframed");
        if constexpr (std::is_same_v<G, SE3>) {
          SO3 r{g.rotation()};
          r.set_frames(pool[1], pool[2]);
          check_frames(s, SE3{r}, {}, "pose from a framed rotation");
          check_frames(s, SE3{r, g.translation()}, {}, "pose from a framed rotation and translation");
        }
        break;
      }
      case 3:
      case 4:
      case 5: {  // Compose
        s.note("compose #", i, " * #", j);
        const bool both = !null(a.m.into) && !null(b.m.into);
        const bool bad = both && a.m.from != b.m.into;
        G r{};
        // The operands themselves (possibly one object), and the result
        // possibly put over one of them.
        const size_t where = s.below(4);
        const bool threw = pbt::throws<AssertException>([&] {
          if (where == 0) {
            a.g = a.g * b.g;
            r = a.g;
          } else {
            r = items[i].g * items[j].g;
          }
        });
        PBT_CHECK(s, threw == bad, "composition must fail exactly if both are framed and inner frames differ: ", showf(items[i].g), " * ", showf(items[j].g), " threw=", threw);
        saw_throw = saw_throw || threw;
        if (!threw) {
          const MFrames m = both ? MFrames{a.m.into, b.m.from} : MFrames{};
          check_frames(s, r, m, "compose");
          saw_framed_compose = saw_framed_compose || both;
          items.push_back({r, m});
        }
        break;
      }
      case 6: {
        s.note("inverse #", i);
        const MFrames m{a.m.from, a.m.into};
        G r = a.g.inverse();
        check_frames(s, r, m, "inverse");
        items.push_back({r, m});
        break;
      }
      case 7: {
        const double f = s.coin() ? static_cast<double>(s.range(0, 1)) : s.uniform(-1, 2);
        s.note("interp #", i, " ", f);
        G r = a.g.interp(f);
        check_frames(s, r, a.m, "interp");
        items.push_back({r, a.m});
        break;
      }
      case 8: {
        const Frame nf = any();
        const double f = s.coin() ? static_cast<double>(s.range(0, 1)) : s.uniform(-1, 2);
        s.note("interp #", i, " ", f, " with new frame ", nf.id().to_string());
        const bool bad = null(a.m.into) || nf.is_null();
        G r{};
        const bool threw = pbt::throws<AssertException>([&] { r = a.g.interp(f, nf); });
        PBT_CHECK(s, threw == bad, "interpolation with a new frame must fail exactly for unframed transforms or null frames; threw=", threw);
        saw_throw = saw_throw || threw;
        if (!threw) {
          const MFrames m{a.m.into, nf.id().id()};
          check_frames(s, r, m, "interp");
          items.push_back({r, m});
        }
        break;
      }
      case 9: {
        const Frame into = any();
        const Frame from = any();
        s.note("set_frames #", i, " ", into.id().to_string(), " ", from.id().to_string());
        const bool bad = into.is_null() || from.is_null();
        const bool threw = pbt::throws<AssertException>([&] { items[i].g.set_frames(into, from); });
        PBT_CHECK(s, threw == bad, "set_frames must reject exactly null frames; threw=", threw);
        saw_throw = saw_throw || threw;
        if (!threw) {
          items[i].m = {into.id().id(), from.id().id()};
        }
        check_frames(s, items[i].g, items[i].m, "set_frames");
        break;
      }
      case 10: {
        s.note("set_unframed #", i);
        items[i].g.set_unframed();
        items[i].m = {};
        check_frames(s, items[i].g, {}, "set_unframed");
        break;
      }
      case 11: {  // Rotate a framed vector
        const Frame vf = any();
        const FramedVector v{vec3(s, 10), vf};
        s.note("rotate vector in ", vf.id().to_string(), " with #", i);
        const bool bad = null(a.m.into) || vf.id().id() != a.m.from;
        FramedVector r;
        const bool threw = pbt::throws<AssertException>([&] { r = a.g.rotate(v); });
        PBT_CHECK(s, threw == bad, "rotating a framed vector must fail exactly if unframed or the frame is not the source frame; threw=", threw);
        saw_throw = saw_throw || threw;
        if (!threw) {
          PBT_CHECK(s, r.frame().id().id() == a.m.into, "rotated vector is in the wrong frame");
          PBT_CHECK(s, close(r.vector(), a.g.rotate(v.vector()), 1e-12 * (1 + v.norm())), "rotated vector differs");
        }
        break;
      }
      case 12: {  // Assignment takes everything from the right-hand side
        const size_t how = s.below(3);
        s.note("assign ", how, " #", i, " = #", j);
        if (how == 0) {
          items[i].g = items[j].g;  // Possibly to itself
        } else if (how == 1) {
          G tmp{b.g};
          items[i].g = std::move(tmp);
        } else {
          std::swap(items[i].g, items[j].g);
          std::swap(items[i].m, items[j].m);
          break;
        }
        items[i].m = b.m;
        PBT_CHECK(s, items[i].g.is_approx_transform(b.g), "assignment: the transform");
        check_frames(s, items[i].g, b.m, "assignment");
        break;
      }
      default: {  // Comparison, verification and copies
        s.note("compare #", i, " with #", j);
        const bool same = a.m.into == b.m.into && a.m.from == b.m.from;
        G c{a.g};
        check_frames(s, c, a.m, "copy");
        if (same) {
          PBT_CHECK(s, c.is_approx(a.g), "copy is not approximately equal");
        }
        G d{a.g};
        if (null(b.m.into)) {
          d.set_unframed();
        } else {
          d.set_frames(b.g.into(), b.g.from());
        }
        PBT_CHECK(s, a.g.is_approx(d) == same, "is_approx must compare frames: same=", same);
        PBT_CHECK(s, a.g.is_approx_transform(d), "is_approx_transform must ignore frames");
        PBT_CHECK(s, a.g.verify_into(b.g.into()) == (a.m.into == b.m.into), "verify_into");
        PBT_CHECK(s, a.g.verify_from(b.g.from()) == (a.m.from == b.m.from), "verify_from");
        PBT_CHECK(s, a.g.verify_frames(b.g.into(), b.g.from()) == same, "verify_frames");
        PBT_CHECK(s, a.g.verify_frames(b.g.from(), b.g.into()) == (a.m.into == b.m.from && a.m.from == b.m.into), "verify_frames swapped");
        G e{};
        e = std::move(d);
        check_frames(s, e, b.m, "move");
      }
    }
    // Nothing else changed
    for (const auto &it : items) {
      PBT_CHECK(s, frames_are(it.g, it.m), "an operation changed the frames of another transform");
    }
  }
  if (saw_throw && saw_framed_compose) {
    s.nontrivial();
  }
}

template <unsigned dims>
void vectors(Src &s) {
  using FV = resim::transforms::FramedVector<dims>;
  using F = resim::transforms::Frame<dims>;
  using V = typename FV::Vector;
  std::vector<F> pool{F::null_frame()};
  for (const auto &f : frames(s, 2)) {
    pool.emplace_back(f.id());
  }
  const auto vec = [&]() -> V {
    V v;
    for (unsigned i = 0; i < dims; ++i) {
      v[i] = s.symmetric(1) * magnitude(s, 100);
    }
    return v;
  };
  const V va = vec();
  const V vb = s.chance(1, 3) ? va : vec();
  const F fa = s.pick(pool);
  const F fb = s.pick(pool);
  const bool same = fa.id().id() == fb.id().id();
  const double k = s.chance(1, 4) ? s.pick(std::vector<double>{0., -0., 1., -1., 2.}) : s.symmetric(3);
  s.note("a=", show(Eigen::MatrixXd(va)), " in ", fa.id().to_string(), "; b=", show(Eigen::MatrixXd(vb)), " in ", fb.id().to_string(), " k=", k);
  if (!same || va == vb) {
    s.nontrivial();
  }
  const FV a{va, fa};
  const FV b{vb, fb};
  FV sum;
  const bool threw = pbt::throws<AssertException>([&] { sum = a + b; });
  PBT_CHECK(s, threw == !same, "adding vectors must fail exactly if the frames differ; threw=", threw);
  if (!threw) {
    PBT_CHECK(s, sum.frame().id().id() == fa.id().id() && sum.vector() == V(va + vb), "sum");
  }
  PBT_CHECK(s, V(a + vb) == V(va + vb), "sum with an unframed vector");
  PBT_CHECK(s, (a + a).vector() == V(va + va) && (a + a).frame().id().id() == fa.id().id(), "a vector plus itself");
  PBT_CHECK(s, a == a && a.isApprox(a), "a vector is not equal to itself");
  FV as{b};
  as = a;
  PBT_CHECK(s, as == a && as.frame().id().id() == fa.id().id() && as.vector() == va, "assignment");
  as = as + as;
  PBT_CHECK(s, as.vector() == V(va + va) && as.frame().id().id() == fa.id().id(), "sum assigned over its operand");
  PBT_CHECK(s, (a * k).frame().id().id() == fa.id().id() && (a * k).vector() == V(va * k), "vector * scalar");
  PBT_CHECK(s, (k * a).frame().id().id() == fa.id().id() && (k * a).vector() == V(va * k), "scalar * vector");
  PBT_CHECK(s, (a == b) == (same && va == vb), "equality must consider values and frames");
  PBT_CHECK(s, (a != b) == !(same && va == vb), "inequality must consider values and frames");
  const bool approx = va.isApprox(vb);
  PBT_CHECK(s, a.isApprox(b) == (same && approx), "isApprox must consider values and frames");
  PBT_CHECK(s, a.isApprox(b, 0.5) == (same && va.isApprox(vb, 0.5)), "isApprox with precision");
  PBT_CHECK(s, a.isApprox(vb) == approx, "isApprox with an unframed vector");
  PBT_CHECK(s, a.frame() == fa && a.vector() == va, "accessors");
  FV c{a};
  c.set_frame(fb);
  PBT_CHECK(s, c.frame().id().id() == fb.id().id() && c.vector() == va, "set_frame");
  PBT_CHECK(s, (c == a) == same, "equality after set_frame");
  const FV fresh{va};
  const FV fresh2{va};
  PBT_CHECK(s, !fresh.frame().is_null() && fresh.frame() != fresh2.frame() && fresh.vector() == va, "a vector without a given frame gets a new one");
  PBT_CHECK(s, FV{}.frame().is_null(), "default frame is null");
  PBT_CHECK(s, (fa == fb) == same && (fa != fb) == !same, "frame equality");
  PBT_CHECK(s, fa.is_null() == (fa.id().id() == NUL), "frame nullness");
  PBT_CHECK(s, F{}.is_null() && !F::new_frame().is_null() && F::new_frame() != F::new_frame(), "new frames");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C04",
      "histories of 3..27 operations (construct, compose, invert, interpolate, reframe, rotate framed vectors, compare, "
      "copy) on a growing pool of transforms whose frames come from similar ids (often one bit apart) and null, against a "
      "model of the frames; pairs of framed vectors; non-trivial: the history contains both a rejected operation and a "
      "framed composition / frames differ or values coincide",
      {
          {"history_so3", history<SO3>, 20000, 600000},
          {"history_se3", history<SE3>, 25000, 800000},
          {"vectors_2", vectors<2>, 5000, 150000},
          {"vectors_3", vectors<3>, 10000, 300000},
          {"vectors_4", vectors<4>, 5000, 150000},
      },
      {}};
}
