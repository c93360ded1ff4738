// C26: objects shared by threads.
// @quick_scale: 1
// @variants: asan tsan
#include <atomic>
#include <functional>
#include <memory>
#include <thread>

#include "primitives.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"
#include "resim/time/event_schedule.hh"
#include "resim/time/sample_interval.hh"
#include "resim/transforms/liegroup_exp_diff.hh"
#include "resim/utils/status_value.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"

namespace {
using namespace gen;
using resim::Status;

// What a question was answered with, byte for byte
using Answer = std::string;
void put(Answer &out, double x) { out.append(reinterpret_cast<const char *>(&x), sizeof(x)); }
template <typename M>
void put_matrix(Answer &out, const M &m) {
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) put(out, m(i, j));
}
void put(Answer &out, const Frame &f) { out += f.id().to_string(); }
template <typename G>
void put_group(Answer &out, const G &g) {
  put_matrix(out, matrix_of(g));
  put(out, g.into());
  put(out, g.from());
}
template <typename G>
void put(Answer &out, const JetL<G> &j) {
  put_group(out, j.frame_from_ref());
  put_matrix(out, j.d_frame_from_ref());
  put_matrix(out, j.d2_frame_from_ref());
}
void put(Answer &out, const resim::actor::state::RigidBodyState<SE3> &x) {
  const auto &j = x.ref_from_body_two_jet();
  put_group(out, j.ref_from_frame());
  put_matrix(out, j.d_ref_from_frame());
  put_matrix(out, j.d2_ref_from_frame());
}

// Something to ask of objects that exist already. It must be possible to ask any number of times.
using Question = std::function<Answer()>;
struct Exam {
  std::shared_ptr<void> objects;
  std::vector<Question> questions;
};

// An answer or the fact that the question was refused
Answer ask(const Question &q) {
  try {
    return q();
  } catch (const AssertException &) {
    return "refused";
  }
}

template <typename Proto, typename T>
Answer packed(const T &x) {
  Proto p;
  pack(x, &p);
  std::string bytes;
  p.SerializeToString(&bytes);
  return bytes;
}

template <typename G>
Exam transforms(Src &s) {
  struct Objects {
    G a;
    G b;
    FramedVector v;
    typename G::TangentVector x;
  };
  const auto fr = frames(s, 3);
  auto o = std::make_shared<Objects>(Objects{group<G>(s, 100), group<G>(s, 100), FramedVector{vec3(s, 100), fr[2]}, tangent<G>(s, 10)});
  o->a.set_frames(fr[0], fr[1]);
  o->b.set_frames(fr[1], fr[2]);
  Exam e{o, {}};
  const size_t n = 1 + s.below(12);
  for (size_t i = 0; i < n; ++i) {
    const double f = s.uniform(-1, 2);
    switch (s.below(9)) {
      case 0:
        e.questions.push_back([o] { Answer r; put_group(r, o->a * o->b); return r; });
        break;
      case 1:
        e.questions.push_back([o] { Answer r; put_group(r, o->a.inverse()); return r; });
        break;
      case 2:
        e.questions.push_back([o] { Answer r; put_matrix(r, o->b.log()); return r; });
        break;
      case 3:
        e.questions.push_back([o, f] { Answer r; put_group(r, o->a.interp(f)); return r; });
        break;
      case 4:
        e.questions.push_back([o] { Answer r; put_matrix(r, o->a.adjoint()); return r; });
        break;
      case 5:
        e.questions.push_back([o, f] { Answer r; put_group(r, G::exp(f * o->x)); return r; });
        break;
      case 6:
        e.questions.push_back([o] { Answer r; put_matrix(r, o->b.rotate(o->v).vector()); put(r, o->b.rotate(o->v).frame()); return r; });
        break;
      case 7:
        e.questions.push_back([o] { return Answer(o->a.is_approx(o->b) ? "y" : "n") + (o->a.is_framed() ? "y" : "n"); });
        break;
      default:
        e.questions.push_back([o] { Answer r; put_group(r, o->b * o->a); return r; });  // Refused
    }
  }
  return e;
}

template <typename G, typename Proto>
Exam time_curve(Src &s) {
  TCurve<G> c;
  const Framing f = framing(s);
  double t = s.symmetric(10);
  const size_t n = s.below(12);
  std::vector<double> times;
  for (size_t i = 0; i < n; ++i) {
    G g = group<G>(s, 100);
    auto d = tangent<G>(s, 100);
    auto d2 = tangent<G>(s, 100);
    times.push_back(t);
    c.append({t, JetL<G>{framed(g, f), d, d2}});
    t += s.uniform(1e-2, 10);
  }
  const auto o = std::make_shared<const TCurve<G>>(c);
  Exam e{std::make_shared<TCurve<G>>(c), {}};
  const size_t m = 2 + s.below(30);
  for (size_t i = 0; i < m; ++i) {
    const double at = times.empty() ? 0. : s.chance(1, 4) ? s.pick(times) : times.front() + (times.back() - times.front()) * s.uniform(-0.1, 1.1);
    switch (s.weighted({8, 1, 1, 1})) {
      case 0:
        e.questions.push_back([o, at] { Answer r; put(r, o->point_at(at)); return r; });
        break;
      case 1:
        e.questions.push_back([o] { Answer r; put(r, o->start_time()); put(r, o->end_time()); put(r, o->reference_frame()); put(r, o->point_frame()); return r; });
        break;
      case 2:
        e.questions.push_back([o] { return packed<Proto>(*o); });
        break;
      default:  // A copy goes its own way
        e.questions.push_back([o, at] {
          TCurve<G> copy{*o};
          if (!copy.control_pts().empty()) {
            auto last = copy.control_pts().back();
            copy.append({last.time + 1., last.point});
          }
          Answer r;
          put(r, copy.point_at(at));
          return r;
        });
    }
  }
  return e;
}

Exam distance_curve(Src &s) {
  const Framing f = framing(s);
  std::vector<SE3> poses;
  const size_t n = s.below(12);
  for (size_t i = 0; i < n; ++i) poses.push_back(framed(se3(s, 100, true), f));
  const auto o = std::make_shared<const DCurve>(DCurve{poses});
  Exam e{nullptr, {}};
  const double length = n > 0 ? o->curve_length() : 1.;
  const size_t m = 2 + s.below(30);
  for (size_t i = 0; i < m; ++i) {
    const double at = s.uniform(-0.1, 1.1) * length;
    switch (s.weighted({8, 1, 1, 1})) {
      case 0:
        e.questions.push_back([o, at] { Answer r; put_group(r, o->point_at(at)); return r; });
        break;
      case 1:
        e.questions.push_back([o] { Answer r; put(r, o->curve_length()); put(r, o->reference_frame()); put(r, o->point_frame()); return r; });
        break;
      case 2:
        e.questions.push_back([o] { return packed<resim::curves::proto::DCurve_SE3>(*o); });
        break;
      default:
        e.questions.push_back([o, at] {
          DCurve copy{*o};
          if (!copy.control_pts().empty()) copy.append(*copy.control_pts().front().ref_from_control);
          Answer r;
          put_group(r, copy.point_at(at));
          return r;
        });
    }
  }
  return e;
}

Exam trajectory(Src &s) {
  auto curve = Make<TCurve<SE3>>::make(s, true);
  const Timestamp start{Duration{s.range(-1'000'000'000, 1'000'000'000)}};
  const auto o = std::make_shared<const Trajectory>(curve, start);
  const bool any = !curve.control_pts().empty();
  const double length = any ? curve.end_time() : 1.;
  Exam e{nullptr, {}};
  const size_t m = 2 + s.below(30);
  for (size_t i = 0; i < m; ++i) {
    const Duration at{static_cast<int64_t>(s.uniform(-0.1, 1.1) * length * 1e9)};
    switch (s.weighted({5, 3, 1, 1})) {
      case 0:
        e.questions.push_back([o, at, start] { Answer r; put(r, o->point_at(start + at)); return r; });
        break;
      case 1:
        e.questions.push_back([o, at] { Answer r; put(r, o->point_at(at)); return r; });
        break;
      case 2:
        e.questions.push_back([o] {
          Answer r = std::to_string(o->start_time().time_since_epoch().count()) + " " + std::to_string(o->end_time().time_since_epoch().count()) + " " +
                     std::to_string(o->time_duration().count());
          put(r, o->reference_frame());
          put(r, o->body_frame());
          return r;
        });
        break;
      default:
        e.questions.push_back([o] { return packed<resim::actor::state::proto::Trajectory>(*o); });
    }
  }
  return e;
}

Exam messages(Src &s) {
  auto update = std::make_shared<ViewUpdate>();
  const size_t n = 1 + s.below(6);
  for (size_t i = 0; i < n; ++i) {
    update->primitives.push_back(ViewPrimitive{.id = uuid(s), .payload = payload(s), .user_defined_name = s.coin() ? std::optional<std::string>{s.text(9)} : std::nullopt,
                                               .file_name = "file", .line_number = static_cast<int>(i)});
  }
  auto message = std::make_shared<resim::visualization::proto::ViewUpdate>();
  pack(*update, message.get());
  Exam e{update, {}};
  e.questions.push_back([update] { return packed<resim::visualization::proto::ViewUpdate>(*update); });
  e.questions.push_back([message] { return packed<resim::visualization::proto::ViewUpdate>(unpack(*message)); });
  return e;
}

// Questions that make their own objects: threads do not disturb each other through hidden common state
Exam separate(Src &s) {
  Exam e{nullptr, {}};
  const size_t m = 1 + s.below(6);
  for (size_t i = 0; i < m; ++i) {
    const double x = s.uniform(0.1, 3);
    const int n = 2 + static_cast<int>(s.below(20));
    switch (s.below(6)) {
      case 0:
        e.questions.push_back([x, n] {
          Eigen::VectorXd mu = Eigen::VectorXd::Constant(2, x);
          Eigen::MatrixXd cov = Eigen::MatrixXd::Identity(2, 2) * x;
          resim::math::Gaussian g{mu, cov};
          Answer r;
          put_matrix(r, g.samples(static_cast<unsigned>(n)));
          put_matrix(r, g.sample());
          return r;
        });
        break;
      case 1:
        e.questions.push_back([x, n] {
          Answer r;
          resim::time::sample_interval(-x, x, x / n, [&](double t) { put(r, t); });
          return r;
        });
        break;
      case 2:
        e.questions.push_back([n] {
          resim::time::EventSchedule<int> q;
          for (int k = 0; k < n; ++k) q.schedule_event(Timestamp{Duration{(k * 7) % 5}}, k);
          Answer r;
          for (int k = 0; k < n; ++k) {
            r += std::to_string(q.top_event().payload) + ",";
            q.pop_event();
          }
          return r;
        });
        break;
      case 3:
        e.questions.push_back([n] {
          const resim::Status st = MAKE_STATUS(n % 2 == 0 ? "failure of even n" : "another failure");
          const resim::StatusValue<std::string> v{st};
          return st.what() + v.status().what();
        });
        break;
      case 4:
        e.questions.push_back([x] {
          Answer r;
          put_group(r, SO3::exp(Vec3{x, -x, 0.3}).interp(0.3));
          put_matrix(r, SE3::exp((Vec6() << x, 0, 0, 1, 2, 3).finished()).log());
          return r;
        });
        break;
      default: {
        const UUID u = uuid(s);
        e.questions.push_back([u] { return u.to_string() + UUID{u.to_string()}.to_string() + std::to_string(std::hash<UUID>{}(u)); });
      }
    }
  }
  return e;
}

template <Exam make(Src &)>
void shared(Src &s) {
  const uint64_t delay = s.below(50);
  const size_t threads = 2 + s.below(4);
  std::vector<size_t> offset(threads);
  for (auto &x : offset) x = s.below(30);
  const Exam e = make(s);
  s.note(threads, " threads, ", e.questions.size(), " questions, delay ", delay);
  if (e.questions.size() > 1) s.nontrivial();
  // First all threads at once, each starting elsewhere, so that nothing has been asked before
  std::vector<std::vector<Answer>> got(threads, std::vector<Answer>(e.questions.size()));
  std::atomic<size_t> ready{0};
  std::vector<std::thread> running;
  for (size_t t = 0; t < threads; ++t) {
    running.emplace_back([&, t] {
      ready.fetch_add(1);
      while (ready.load() < threads) std::this_thread::yield();
      for (size_t k = 0; k < e.questions.size(); ++k) {
        const size_t i = (k + offset[t]) % e.questions.size();
        got[t][i] = ask(e.questions[i]);
      }
    });
  }
  for (auto &t : running) t.join();
  // Then alone
  for (size_t i = 0; i < e.questions.size(); ++i) {
    const Answer want = ask(e.questions[i]);
    for (size_t t = 0; t < threads; ++t) PBT_CHECK(s, got[t][i] == want, "thread ", t, " got another answer to question ", i, " than a single thread does");
  }
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C26",
      "2-5 threads asking up to 32 questions (queries, compositions, copies that are appended to, packing, unpacking) of the same "
      "transforms, curves, trajectory or messages, or working on separate objects, in different orders; answers compared byte for "
      "byte with those of a single thread; non-trivial: more than one question",
      {
          {"so3", shared<transforms<SO3>>, 1500, 60000, true},
          {"se3", shared<transforms<SE3>>, 1500, 60000, true},
          {"t_curve_so3", shared<time_curve<SO3, resim::curves::proto::TCurve_SO3>>, 1500, 60000, true},
          {"t_curve_se3", shared<time_curve<SE3, resim::curves::proto::TCurve_SE3>>, 2000, 80000, true},
          {"d_curve", shared<distance_curve>, 2000, 80000, true},
          {"trajectory", shared<trajectory>, 2000, 80000, true},
          {"messages", shared<messages>, 1500, 60000, true},
          {"separate", shared<separate>, 2000, 80000, true},
      },
      {"schedules are those the machine produces; data races are looked for by ThreadSanitizer"}};
}
