// C22: view statements.
// @quick_scale: 1.5
// @variants: asan tsan
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "primitives.hh"
#include "resim/visualization/view_client_interface.hh"
// To reach the replacement of the client, which is only open to the tests
#define private public
#include "resim/visualization/view.hh"
#undef private

namespace {
using namespace gen;
using resim::Status;
using resim::visualization::View;
using resim::visualization::ViewClientInterface;

enum Form { STREAM, MACRO_STREAM, MACRO_NAMED, CHAIN, UNFINISHED, FLUSH, FORMS };
struct Call {
  Form form = STREAM;
  Payload payload{resim::transforms::SO3{}};
  std::string name;
  // What happened
  int line = 0;
  bool threw = false;
  bool other_exception = false;
};

struct Sent {
  ViewUpdate update;
  bool failed = false;
};

struct Shared {
  std::mutex mutex;
  std::vector<Sent> sent;
  std::set<size_t> failing;  // Indices of send calls that fail
  bool throwing = false;     // A failure is an exception rather than a bad status
  unsigned delay = 0;
  std::atomic<int> inside{0};
  std::atomic<bool> overlapped{false};
};

struct Client : ViewClientInterface {
  explicit Client(std::shared_ptr<Shared> sh) : shared{std::move(sh)} {}
  resim::Status send_view_update(const ViewUpdate &update) override {
    if (shared->inside.fetch_add(1) != 0) shared->overlapped = true;
    for (unsigned i = 0; i < shared->delay; ++i) std::this_thread::yield();
    bool fail = false;
    {
      const std::lock_guard<std::mutex> guard{shared->mutex};
      // Updates without content may be sent or not
      if (!update.primitives.empty()) {
        fail = shared->failing.count(shared->sent.size()) != 0;
        shared->sent.push_back({update, fail});
      }
    }
    shared->inside.fetch_sub(1);
    if (fail && shared->throwing) REASSERT(false, "client failure");
    return fail ? MAKE_STATUS("client failure") : resim::OKAY_STATUS;
  }
  std::shared_ptr<Shared> shared;
};

void perform(Call &c) {
  try {
    if (c.form == FLUSH) {  // There is never anything left to send
      resim::view.flush();
      return;
    }
    std::visit(
        [&](const auto &x) {
          switch (c.form) {
            case STREAM:
              resim::view << x;
              break;
            case MACRO_STREAM:
              c.line = __LINE__; VIEW(x) << c.name;
              break;
            case MACRO_NAMED:
              c.line = __LINE__; VIEW(x, c.name);
              break;
            case CHAIN:
              View::get_instance() << x;
              break;
            default:
              c.line = __LINE__; VIEW(x);
          }
        },
        c.payload);
  } catch (const AssertException &) {
    c.threw = true;
  } catch (...) {
    c.other_exception = true;
  }
}

// How a primitive differs from what the call should have sent
std::string wrong(const Call &c, const ViewPrimitive &p) {
  const bool macro = c.form == MACRO_STREAM || c.form == MACRO_NAMED;
  if (macro != p.user_defined_name.has_value()) return macro ? "the name is missing" : "there is a name";
  if (macro && *p.user_defined_name != c.name) return "the name is '" + *p.user_defined_name + "'";
  if (macro && p.file_name != __FILE__) return "the file is " + p.file_name;
  if (macro && p.line_number != c.line) return "the line is " + std::to_string(p.line_number) + " instead of " + std::to_string(c.line);
  if (!macro && (p.file_name != "Unknown file" || p.line_number != 0)) return "the place is " + p.file_name + ":" + std::to_string(p.line_number);
  return differ(c.payload, p.payload);
}

void run(Src &s, size_t max_threads) {
  auto shared = std::make_shared<Shared>();
  const size_t threads = max_threads == 1 ? 1 : 2 + s.below(max_threads - 1);
  std::vector<std::vector<Call>> calls(threads);
  std::vector<const Call *> all;
  for (size_t t = 0; t < threads; ++t) {
    calls[t].resize(s.count(7, 60));
    for (auto &c : calls[t]) {
      c.form = static_cast<Form>(s.below(FORMS));
      c.payload = payload(s);
      c.name = s.coin() ? s.text(12) : "";
      if (s.chance(1, 15)) c.name += std::string(static_cast<size_t>(s.range(100, 3000)), 'n') + s.text(3);
      // Keep the calls distinguishable
      bool ambiguous = false;
      for (const Call *o : all) ambiguous |= differ(o->payload, c.payload).empty();
      if (ambiguous) {
        c.form = c.form == STREAM ? MACRO_STREAM : MACRO_NAMED;
        c.name = "number " + std::to_string(all.size());
      }
      all.push_back(&c);
    }
  }
  const size_t failures = s.chance(2, 3) ? 1 + s.below(4) : 0;
  for (size_t i = 0; i < failures; ++i) shared->failing.insert(s.below(all.size() + 2));
  shared->throwing = s.chance(1, 3);
  shared->delay = static_cast<unsigned>(s.below(30));
  s.note(threads, " threads");
  for (size_t t = 0; t < threads; ++t) {
    for (const auto &c : calls[t]) s.note(" thread ", t, " form ", c.form, " name '", c.name, "' ", show(c.payload));
  }
  for (size_t f : shared->failing) s.note(" send ", f, " fails");
  View::get_instance().set_client(std::make_unique<Client>(shared));

  if (threads == 1) {
    for (auto &c : calls[0]) perform(c);
  } else {
    std::vector<std::thread> running;
    std::atomic<size_t> ready{0};
    for (size_t t = 0; t < threads; ++t) {
      running.emplace_back([&, t] {
        ready.fetch_add(1);
        while (ready.load() < threads) std::this_thread::yield();
        for (auto &c : calls[t]) perform(c);
      });
    }
    for (auto &t : running) t.join();
  }
  PBT_CHECK(s, !shared->overlapped, "two updates were sent at the same time");
  // Each call against what was sent
  std::vector<std::pair<const ViewPrimitive *, bool>> primitives;
  std::set<std::array<unsigned char, 16>> ids;
  for (const auto &u : shared->sent) {
    for (const auto &p : u.update.primitives) {
      primitives.emplace_back(&p, u.failed);
      PBT_CHECK(s, !p.id.is_null(), "a null id was sent");
      PBT_CHECK(s, ids.insert(p.id.id()).second, "an id was sent twice");
    }
  }
  size_t expected = 0;
  size_t failed = 0;
  for (size_t t = 0; t < threads; ++t) {
    long last = -1;
    for (size_t k = 0; k < calls[t].size(); ++k) {
      const Call &c = calls[t][k];
      const auto name = [&] { return "call " + std::to_string(k) + " of thread " + std::to_string(t); };
      PBT_CHECK(s, !c.other_exception, name(), " threw something unexpected");
      if (c.form == UNFINISHED || c.form == FLUSH) {
        PBT_CHECK(s, !c.threw, name(), " threw without sending anything");
        continue;
      }
      ++expected;
      long at = -1;
      std::string why;
      for (size_t i = 0; i < primitives.size(); ++i) {
        const std::string w = wrong(c, *primitives[i].first);
        if (w.empty()) {
          PBT_CHECK(s, at < 0, "the object of ", name(), " was sent twice");
          at = static_cast<long>(i);
        } else if (differ(c.payload, primitives[i].first->payload).empty()) {
          why = w;
        }
      }
      PBT_CHECK(s, at >= 0, "the object of ", name(), " was not sent as viewed: ", why);
      PBT_CHECK(s, at > last, "the object of ", name(), " was sent before an earlier one of its thread");
      last = at;
      if (primitives[at].second) ++failed;
      PBT_CHECK(s, c.threw == primitives[at].second, name(), c.threw ? " threw although its object was sent" : " did not notice that its object was lost");
    }
  }
  PBT_CHECK(s, primitives.size() == expected, primitives.size(), " objects were sent for ", expected, " calls");
  if (expected > 1 && (failed > 0 || threads > 1)) s.nontrivial();
  View::get_instance().set_client(nullptr);
}

// A named view object is viewed as often as it is given a name
void reused(Src &s) {
  auto shared = std::make_shared<Shared>();
  View::get_instance().set_client(std::make_unique<Client>(shared));
  const resim::transforms::SE3 x = se3(s);
  std::vector<std::string> names(2 + s.below(3));
  for (auto &n : names) {
    n = s.text(12);
    if (s.chance(1, 15)) n += std::string(static_cast<size_t>(s.range(100, 70000)), 'n') + s.text(3);
    if (s.chance(1, 4)) n.insert(s.below(n.size() + 1), 1, '\0');
  }
  const int line = __LINE__; auto object = VIEW(x);
  for (const auto &n : names) {
    s.note("name '", n, "'");
    object << n;
  }
  s.nontrivial();
  PBT_CHECK(s, shared->sent.size() == names.size(), shared->sent.size(), " updates for ", names.size(), " names");
  for (size_t i = 0; i < names.size(); ++i) {
    PBT_CHECK(s, shared->sent[i].update.primitives.size() == 1, "primitives in an update");
    const auto &p = shared->sent[i].update.primitives[0];
    PBT_CHECK(s, p.user_defined_name.has_value() && *p.user_defined_name == names[i], "the name '", names[i], "' was not sent with view ", i);
    PBT_CHECK(s, p.line_number == line && p.file_name == __FILE__, "the place of view ", i);
    PBT_CHECK(s, differ(Payload{x}, p.payload).empty(), "the object of view ", i);
  }
  View::get_instance().set_client(nullptr);
}

// The object is taken when the statement is reached: it may be a temporary,
// change or go away before it is given a name.
void taken(Src &s) {
  auto shared = std::make_shared<Shared>();
  View::get_instance().set_client(std::make_unique<Client>(shared));
  std::visit(
      [&](const auto &original) {
        using T = std::decay_t<decltype(original)>;
        const auto make = [&]() -> T { return original; };
        auto kept = std::make_unique<T>(original);
        const bool temporary = s.coin();
        s.note(show(Payload{original}), temporary ? " as a temporary" : " destroyed afterwards");
        auto object = temporary ? VIEW(make()) : VIEW(*kept);
        kept.reset();
        auto copy = object;
        auto name = std::make_unique<std::string>(s.text(40));
        const std::string want = *name;
        object << *name;
        copy << std::string{want} + "2";
        name.reset();
        VIEW(make(), want + "3");
        // Several in one statement
        resim::view << make() << original;
        PBT_CHECK(s, shared->sent.size() == 5, shared->sent.size(), " updates instead of 5");
        for (size_t i = 0; i < 5; ++i) {
          const auto &p = shared->sent[i].update.primitives;
          PBT_CHECK(s, p.size() == 1 && differ(Payload{original}, p[0].payload).empty(), "the object was not sent as viewed in update ", i);
          const std::string suffix[] = {"", "2", "3"};
          PBT_CHECK(s, p[0].user_defined_name.has_value() == (i < 3) && (i >= 3 || *p[0].user_defined_name == want + suffix[i]), "the name in update ", i);
        }
        // A failure ends the statement
        shared->failing.insert(5);
        shared->throwing = s.coin();
        PBT_CHECK(s, pbt::throws<AssertException>([&] { resim::view << original << original; }), "a failure was not noticed");
        PBT_CHECK(s, shared->sent.size() == 6, "the statement went on after a failure");
        resim::view << original;
        PBT_CHECK(s, shared->sent.size() == 7 && shared->sent[6].update.primitives.size() == 1, "what failed was sent again");
      },
      payload(s));
  s.nontrivial();
  View::get_instance().set_client(nullptr);
}

void sequential(Src &s) { run(s, 1); }
void concurrent(Src &s) { run(s, 5); }

void without_client(Src &s) {
  View::get_instance().set_client(nullptr);
  PBT_CHECK(s, pbt::throws<AssertException>([&] { View::get_instance().flush(); }), "flushing without a client is not refused");
  Call c;
  c.form = s.coin() ? MACRO_NAMED : STREAM;
  c.payload = payload(s);
  c.name = "x";
  perform(c);
  PBT_CHECK(s, c.threw, "viewing without a client is not refused");
  s.nontrivial();
  // What was viewed before does not show up with a new client
  auto shared = std::make_shared<Shared>();
  View::get_instance().set_client(std::make_unique<Client>(shared));
  View::get_instance().flush();
  PBT_CHECK(s, shared->sent.empty(), "an object viewed without a client was sent");
  PBT_CHECK(s, &View::get_instance() == &resim::view, "there are two views");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C22",
      "1-5 threads with up to 6 view statements each, of five forms (and flushes) and every kind of payload, against a recording client that "
      "fails chosen sends by status or exception; non-trivial: more than one object, with a failed send or several threads",
      {
          {"sequential", sequential, 20000, 400000},
          {"concurrent", concurrent, 6000, 120000, true},
          {"reused", reused, 3000, 100000},
          {"taken", taken, 3000, 100000},
          {"without_client", without_client, 500, 20000},
      },
      {"the client is replaced through the interface open to the repository's own tests",
       "an update without content may or may not be sent",
       "schedules are those the machine produces, perturbed by yields while sending; data races are looked for by ThreadSanitizer"}};
}
