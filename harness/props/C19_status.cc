// C19: status propagation.
// @quick_scale: 8
#include <limits>
#include <memory>
#include <optional>

#include "gen.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"

namespace {
using namespace resim;
using pbt::Src;

const std::string LONG_MESSAGE = std::string(130, 'x') + "|" + std::string(400, 'y') + "|" + std::string(5000, 'z') + "end";
const std::vector<const char *> MESSAGES{LONG_MESSAGE.c_str(), "", "first failure", "second {} failure {0}", "%s%n", "quote \" and\nnewline",
                                         "a longer message that does not fit into any small buffer there may be, at all"};
std::string heap(int level) { return "value of level " + std::to_string(level) + " which is long enough to live on the heap"; }

// ---- chains of functions that pass statuses on in every supported way ----
struct Chain {
  std::vector<int> kinds;  // How level i calls level i + 1
  int bad = -1;            // The level that fails, or -1
  const char *message = "";
  std::vector<std::string> log;
  std::string origin;  // what() of the status where it was made
  int origin_line = 0;
};
thread_local Chain *chain = nullptr;
thread_local std::vector<std::unique_ptr<std::string>> owned;

Status call_status(int level);
StatusValue<std::string> call_value(int level);
StatusValue<std::unique_ptr<std::string>> call_ptr(int level);
StatusValue<std::string &> call_ref(int level);

void enter(const char *how, int level) { chain->log.push_back(how + std::to_string(level)); }

Status fail_here() {
  const Status st = MAKE_STATUS(chain->message); chain->origin_line = __LINE__;
  chain->origin = st.what();
  return st;
}

// Calls the next level; returns a bad status from here if that fails. Appends to the log if and only if it goes on.
#define NEXT_LEVEL(level)                                                                            \
  if (chain->bad == (level)) {                                                                       \
    return fail_here();                                                                              \
  }                                                                                                  \
  if ((level) + 1 < static_cast<int>(chain->kinds.size())) {                                         \
    switch (chain->kinds[(level) + 1]) {                                                             \
      case 0:                                                                                        \
        RETURN_IF_NOT_OK(call_status((level) + 1));                                                  \
        break;                                                                                       \
      case 1:                                                                                        \
        RETURN_IF_NOT_OK(call_value((level) + 1).status());                                          \
        break;                                                                                       \
      case 2: {                                                                                      \
        const std::string v = RETURN_OR_ASSIGN(call_value((level) + 1));                             \
        if (v != heap((level) + 1)) pbt::fail("value changed to '", v, "'");                         \
        break;                                                                                       \
      }                                                                                              \
      case 3: {                                                                                      \
        const std::unique_ptr<std::string> v = RETURN_OR_ASSIGN(call_ptr((level) + 1));              \
        if (v == nullptr || *v != heap((level) + 1)) pbt::fail("value behind the pointer changed");  \
        break;                                                                                       \
      }                                                                                              \
      case 4: {                                                                                      \
        std::string &v = RETURN_OR_ASSIGN(call_ref((level) + 1));                                    \
        if (v != heap((level) + 1)) pbt::fail("referenced value changed");                           \
        if (&v != owned.back().get()) pbt::fail("reference to another object");                      \
        break;                                                                                       \
      }                                                                                              \
      case 5: {                                                                                      \
        const StatusValue<std::string> held = call_value((level) + 1);                               \
        const std::string v = RETURN_OR_ASSIGN(held);                                                \
        if (v != heap((level) + 1) || held.value() != v) pbt::fail("const status value changed");    \
        break;                                                                                       \
      }                                                                                              \
      case 6: {                                                                                      \
        StatusValue<std::unique_ptr<std::string>> held = call_ptr((level) + 1);                      \
        const std::unique_ptr<std::string> v = RETURN_OR_ASSIGN(std::move(held));                    \
        if (v == nullptr || *v != heap((level) + 1)) pbt::fail("moved value changed");               \
        break;                                                                                       \
      }                                                                                              \
      default: {                                                                                     \
        const std::string v = RETURN_OR_ASSIGN(call_value((level) + 1)) + "|" + std::to_string(level); \
        if (v != heap((level) + 1) + "|" + std::to_string(level)) pbt::fail("value in an expression changed"); \
      }                                                                                              \
    }                                                                                                \
    chain->log.push_back("after" + std::to_string(level));                                           \
  }

Status call_status(int level) {
  enter("s", level);
  NEXT_LEVEL(level)
  return OKAY_STATUS;
}
StatusValue<std::string> call_value(int level) {
  enter("v", level);
  NEXT_LEVEL(level)
  return heap(level);
}
StatusValue<std::unique_ptr<std::string>> call_ptr(int level) {
  enter("p", level);
  NEXT_LEVEL(level)
  return std::make_unique<std::string>(heap(level));
}
StatusValue<std::string &> call_ref(int level) {
  enter("r", level);
  NEXT_LEVEL(level)
  owned.push_back(std::make_unique<std::string>(heap(level)));
  return *owned.back();
}

const char *prefix(int kind) {
  switch (kind) {
    case 0:
      return "s";
    case 3:
    case 6:
      return "p";
    case 4:
      return "r";
    default:
      return "v";
  }
}

void propagation(Src &s) {
  Chain c;
  chain = &c;
  owned.clear();
  const int depth = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < depth; ++i) c.kinds.push_back(i == 0 ? 0 : static_cast<int>(s.below(8)));
  if (s.chance(3, 4)) c.bad = static_cast<int>(s.below(depth));
  c.message = s.pick(MESSAGES);
  s.note("depth ", depth, " bad ", c.bad, " message ", c.message);
  for (int k : c.kinds) s.note(" kind ", k);
  // The expected history
  std::vector<std::string> want;
  const int last = c.bad >= 0 ? c.bad : depth - 1;
  for (int i = 0; i <= last; ++i) want.push_back(prefix(c.kinds[i]) + std::to_string(i));
  if (c.bad < 0) {
    for (int i = depth - 2; i >= 0; --i) want.push_back("after" + std::to_string(i));
  }
  if (c.bad > 0) s.nontrivial();
  const Status got = call_status(0);
  PBT_CHECK(s, c.log == want, "steps taken: ", [&] {
    std::string t;
    for (const auto &x : c.log) t += x + " ";
    return t;
  }());
  PBT_CHECK(s, got.ok() == (c.bad < 0), "final status: ", got.what());
  if (c.bad >= 0) {
    PBT_CHECK(s, got.what() == c.origin, "the failure was changed on its way: ", got.what(), " was ", c.origin);
    PBT_CHECK(s, got.what().find(c.message) != std::string::npos, "the message is missing from: ", got.what());
    PBT_CHECK(s, got.what().find("C19_status.cc") != std::string::npos, "the file is missing from: ", got.what());
    PBT_CHECK(s, got.what().find(":" + std::to_string(c.origin_line) + ">") != std::string::npos, "the line is missing from: ", got.what());
  }
  // The check turns a failure into an exception, and looks once
  int calls = 0;
  const auto once = [&] {
    ++calls;
    return got;
  };
  bool thrown = false;
  try {
    CHECK_STATUS_OK(once());
  } catch (const AssertException &e) {
    thrown = true;
    const std::string what = e.what();
    PBT_CHECK(s, what.find(c.message) != std::string::npos, "the exception does not carry the message: ", what);
  }
  PBT_CHECK(s, thrown == !got.ok(), thrown ? "a good status was refused" : "a bad status passed the check");
  PBT_CHECK(s, calls == 1, "the status was evaluated ", calls, " times");
  chain = nullptr;
}

// ---- histories of status values against a model ----
struct Model {
  std::optional<std::string> value;
  std::string what;  // Of the status, if bad
  bool movedfrom = false;
};

void verify(Src &s, const StatusValue<std::string> &x, const Model &m) {
  if (m.movedfrom) return;
  PBT_CHECK(s, x.ok() == m.value.has_value(), "ok() says ", x.ok());
  PBT_CHECK(s, x.status().ok() == m.value.has_value(), "status() is ", x.status().what());
  if (m.value) {
    PBT_CHECK(s, x.value() == *m.value, "value is '", x.value(), "' expected '", *m.value, "'");
    PBT_CHECK(s, x.status().what() == OKAY_STATUS.what(), "status of a value");
  } else {
    PBT_CHECK(s, pbt::throws<AssertException>([&] { (void)x.value(); }), "a value was read from a bad status value");
    if (!m.what.empty()) PBT_CHECK(s, x.status().what() == m.what, "status changed to ", x.status().what());
  }
}

void history(Src &s) {
  constexpr size_t N = 4;
  std::vector<StatusValue<std::string>> xs(N);
  std::vector<Model> ms(N);
  const size_t steps = s.below(25);
  for (size_t k = 0; k < steps; ++k) {
    const size_t i = s.below(N);
    const size_t j = s.below(N);
    switch (s.below(8)) {
      case 0: {
        const std::string v = heap(static_cast<int>(s.below(100)));
        s.note(i, " = value");
        xs[i] = v;
        ms[i] = {v, ""};
        break;
      }
      case 1: {
        const Status st = MAKE_STATUS(s.pick(MESSAGES));
        s.note(i, " = bad status ", st.what());
        xs[i] = st;
        ms[i] = {std::nullopt, st.what()};
        break;
      }
      case 2:
        s.note(i, " = copy of ", j);
        xs[i] = StatusValue<std::string>{xs[j]};
        ms[i] = ms[j];
        break;
      case 3:
        s.note(i, " = ", j);
        xs[i] = xs[j];
        ms[i] = ms[j];
        break;
      case 4: {
        if (i == j) break;
        s.note(i, " = move of ", j);
        xs[i] = std::move(xs[j]);
        ms[i] = ms[j];
        ms[j].movedfrom = ms[j].value.has_value();
        break;
      }
      case 5: {
        s.note(i, " = an okay status");
        PBT_CHECK(s, pbt::throws<AssertException>([&] { xs[i] = OKAY_STATUS; }), "an okay status without value was accepted");
        s.nontrivial();
        break;
      }
      case 6: {
        s.note("take from ", i);
        if (ms[i].movedfrom) break;
        if (ms[i].value) {
          const std::string v = std::move(xs[i]).value();
          PBT_CHECK(s, v == *ms[i].value, "took '", v, "'");
          ms[i].movedfrom = true;
        } else {
          PBT_CHECK(s, pbt::throws<AssertException>([&] { (void)std::move(xs[i]).value(); }), "a value was taken from a bad status value");
        }
        break;
      }
      default:
        s.note(i, " = fresh");
        xs[i] = StatusValue<std::string>{};
        ms[i] = {};
    }
    for (size_t n = 0; n < N; ++n) verify(s, xs[n], ms[n]);
    if (k > 5) s.nontrivial();
  }
}

void statuses(Src &s) {
  Status a;
  PBT_CHECK(s, a.ok(), "a fresh status is not okay");
  std::string what = a.what();
  const std::string okay = what;
  const size_t steps = 1 + s.below(10);
  for (size_t i = 0; i < steps; ++i) {
    switch (s.below(4)) {
      case 3: {
        // As made by the macro in other files
        static const std::string LONG_FILE = std::string(300, 'd') + "/" + std::string(700, 'f') + ".cc";
        static const std::vector<const char *> FILES{"a.cc", "", "dir with space/{}%s.hh", LONG_FILE.c_str(), "\xc3\xa9.cc"};
        const char *f = s.pick(FILES);
        const char *m = s.pick(MESSAGES);
        const int line = static_cast<int>(s.coin() ? s.range(0, 100000) : s.range(0, std::numeric_limits<int>::max()));
        s.note("line ", line);
        a = Status::make_at_line(f, line, m);
        PBT_CHECK(s, !a.ok(), "a made status is okay");
        what = a.what();
        PBT_CHECK(s, what.find(m) != std::string::npos && what.find(f + (":" + std::to_string(line) + ">")) != std::string::npos, "message, file or line missing: ", what,
                  " of line ", line);
        break;
      }
      case 0:
        a = OKAY_STATUS;
        PBT_CHECK(s, a.ok() && a.what() == okay, "okay status: ", a.what());
        break;
      case 1: {
        const char *m = s.pick(MESSAGES);
        a = MAKE_STATUS(m); const int line = __LINE__;
        PBT_CHECK(s, !a.ok(), "a made status is okay");
        what = a.what();
        PBT_CHECK(s, what.find(m) != std::string::npos && what.find(std::to_string(line)) != std::string::npos && what.find(__FILE__) != std::string::npos,
                  "message, file or line missing: ", what);
        s.nontrivial();
        break;
      }
      default: {
        Status b{a};
        Status c;
        c = b;
        PBT_CHECK(s, c.ok() == a.ok() && c.what() == a.what(), "a copy differs");
        const bool ok = a.ok();
        a = std::move(c);
        PBT_CHECK(s, a.ok() == ok && a.what() == b.what(), "a move differs");
      }
    }
  }
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C19",
      "call chains of 1-8 functions passing statuses on in eight ways (status, value, move-only value, reference, const, "
      "moved and within an expression), with a failure at any level or none, compared with the expected history of steps, "
      "and histories of up to 25 operations on status values against a model; non-trivial: a failure passed through at "
      "least one level / more than five operations",
      {
          {"propagation", propagation, 60000, 2000000},
          {"history", history, 20000, 600000},
          {"statuses", statuses, 20000, 500000},
      },
      {}};
}
