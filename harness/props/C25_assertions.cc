// C25: assertions.
// @quick_scale: 15
#include <limits>
#include <memory>

#include "gen.hh"

namespace {
using gen::AssertException;
using pbt::Src;

std::string message(Src &s) {
  static const std::vector<std::string> PIECES{"{}", "{0}", "{{", "}", "%s", "%n", "\n", "\t", "\"", "\\", "\xc3\xa9", "x", "a message ", "<file:1>", "0"};
  std::string out;
  const size_t n = s.below(s.chance(1, 10) ? 300 : 12);
  for (size_t i = 0; i < n; ++i) out += s.pick(PIECES);
  // Now and then longer than any buffer somebody may have in mind
  if (s.chance(1, 40)) {
    out += std::string(1 + s.below(s.coin() ? 3000 : 70000), s.coin() ? 'z' : ' ');
    out += "<end>";
  }
  return out;
}

struct Outcome {
  bool threw = false;
  std::string what;
  int line = 0;
};

template <typename F>
Outcome run(F &&f) {
  Outcome o;
  try {
    f(o);
  } catch (const std::exception &e) {  // It can be caught as a standard exception
    o.threw = true;
    o.what = e.what();
    if (dynamic_cast<const AssertException *>(&e) == nullptr) pbt::fail("another exception was thrown: ", e.what());
  }
  return o;
}

void assertion(Src &s) {
  const bool cond = s.chance(1, 3);
  const std::string msg = message(s);
  const std::string beyond = msg + "<beyond the view>";
  int evaluated = 0;
  const auto condition = [&](int) {
    ++evaluated;
    return cond;
  };
  const auto pick = s.below(6);
  s.note("case ", pick, " condition ", cond, " message '", msg, "'");
  if (!cond && !msg.empty()) s.nontrivial();
  std::string text;  // The condition as it was written
  Outcome o;
  bool with_message = true;
  bool went_on = false;
  switch (pick) {
    case 0:
      text = "condition(1)";
      o = run([&](Outcome &r) {
        r.line = __LINE__; REASSERT(condition(1), msg);
        went_on = true;
      });
      break;
    case 1:
      text = "condition(2)";
      with_message = false;
      o = run([&](Outcome &r) {
        r.line = __LINE__; REASSERT(condition(2));
        went_on = true;
      });
      break;
    case 2:
      text = "condition(3) and not false";
      o = run([&](Outcome &r) {
        r.line = __LINE__; REASSERT(condition(3) and not false, msg.c_str());
        went_on = true;
      });
      break;
    case 3:
      text = "(condition(4), condition(5))";
      o = run([&](Outcome &r) {
        --evaluated;
        r.line = __LINE__; REASSERT((condition(4), condition(5)), std::string_view(beyond).substr(0, msg.size()));
        went_on = true;
      });
      break;
    case 4:
      text = "condition(6) == true";
      o = run([&](Outcome &r) {
        if (true)
          r.line = __LINE__, REASSERT(condition(6) == true, msg + "");
        else
          r.line = 0;
        went_on = true;
      });
      break;
    default:
      text = "condition(7) or 1 > 2";
      o = run([&](Outcome &r) {
        for (int i = 0; i < 1; ++i) { r.line = __LINE__; REASSERT(condition(7) or 1 > 2, msg); }
        went_on = true;
      });
  }
  PBT_CHECK(s, o.threw == !cond, cond ? "a true condition threw" : "a false condition did not throw");
  PBT_CHECK(s, went_on == cond, "execution after the assertion: ", went_on);
  PBT_CHECK(s, evaluated == 1, "the condition was evaluated ", evaluated, " times");
  if (!o.threw) return;
  // A message passed as a C string or view ends where the string ends: no embedded nulls are generated
  PBT_CHECK(s, !with_message || o.what.find(msg) != std::string::npos, "the message is missing from: ", o.what);
  PBT_CHECK(s, o.what.find("<beyond the view>") == std::string::npos, "what lies behind the message was read: ", o.what);
  PBT_CHECK(s, o.what.find(text) != std::string::npos, "the condition ", text, " is missing from: ", o.what);
  PBT_CHECK(s, o.what.find(__FILE__) != std::string::npos, "the file is missing from: ", o.what);
  PBT_CHECK(s, o.what.find(":" + std::to_string(o.line) + ">") != std::string::npos, "line ", o.line, " is missing from: ", o.what);
}

// What an exception says outlives whatever it was made from
void lifetime(Src &s) {
  const int line = static_cast<int>(s.coin() ? s.range(0, 100000) : s.range(0, std::numeric_limits<int>::max()));
  auto cond = std::make_unique<std::string>(message(s) + "c");
  auto file = std::make_unique<std::string>(message(s) + "f");
  auto msg = std::make_unique<std::string>(message(s) + "m");
  const std::string c = *cond;
  const std::string f = *file;
  const std::string m = *msg;
  s.note("cond '", c, "' file '", f, "' line ", line, " message '", m, "'");
  s.nontrivial();
  std::unique_ptr<AssertException> e = std::make_unique<AssertException>(*cond, *file, line, *msg);
  cond.reset();
  file.reset();
  msg.reset();
  AssertException copy{*e};
  const std::string what = e->what();
  e.reset();
  const auto holds = [&](const std::string &w) {
    return w.find(c) != std::string::npos && w.find(f) != std::string::npos && w.find(m) != std::string::npos && w.find(std::to_string(line)) != std::string::npos;
  };
  PBT_CHECK(s, holds(what), "says ", what);
  PBT_CHECK(s, what == copy.what(), "a copy says ", copy.what());
  AssertException other{"a", "b", 1, "c"};
  other = copy;
  PBT_CHECK(s, what == other.what(), "an assigned exception says ", other.what());
  const AssertException moved{std::move(copy)};
  PBT_CHECK(s, what == moved.what(), "a moved exception says ", moved.what());
  // Thrown, caught, stored and thrown again
  std::exception_ptr p;
  try {
    throw moved;
  } catch (...) {
    p = std::current_exception();
  }
  try {
    std::rethrow_exception(p);
  } catch (const std::exception &x) {
    PBT_CHECK(s, what == x.what(), "a rethrown exception says ", x.what());
  }
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C25",
      "true and false conditions written in six ways, with messages made of format directives, quotes, line breaks and UTF-8 "
      "up to hundreds of pieces, and exceptions that outlive their sources through copies, moves and rethrows; non-trivial: "
      "a failing condition with a message",
      {
          {"assertion", assertion, 40000, 1000000},
          {"lifetime", lifetime, 30000, 500000},
      },
      {}};
}
