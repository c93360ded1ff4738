// C20: match, nullable references and in-out parameters.
// @quick_scale: 15
#include <memory>
#include <variant>

#include "gen.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"

namespace {
using namespace resim;
using pbt::Src;

struct A {
  int64_t x;
};
struct B : A {};  // A more derived alternative must go to its own branch
using Var = std::variant<int, double, std::string, A, B, std::vector<int>, bool>;

Var variant(Src &s, size_t kind) {
  switch (kind) {
    case 0:
      return static_cast<int>(s.range(-100, 100));
    case 1:
      return s.symmetric(10);
    case 2:
      return s.text(40);
    case 3:
      return A{s.range(0, 9)};
    case 4: {
      B b;
      b.x = s.range(0, 9);
      return b;
    }
    case 5: {
      std::vector<int> v(s.below(9));
      for (auto &x : v) x = static_cast<int>(s.below(10));
      return v;
    }
    default:
      return s.coin();
  }
}

void matching(Src &s) {
  const size_t kind = s.below(7);
  Var v = variant(s, kind);
  const Var before = v;
  s.note("alternative ", kind);
  if (kind > 1) s.nontrivial();
  std::vector<int> hits(7);
  // By const reference: the branch sees the object itself
  const void *seen = nullptr;
  const size_t got = match(
      static_cast<const Var &>(v), [&](const bool &x) -> size_t { ++hits[6]; seen = &x; return 6; },
      [&](const std::vector<int> &x) -> size_t { ++hits[5]; seen = &x; return 5; }, [&](const A &x) -> size_t { ++hits[3]; seen = &x; return 3; },
      [&](const B &x) -> size_t { ++hits[4]; seen = &x; return 4; }, [&](const int &x) -> size_t { ++hits[0]; seen = &x; return 0; },
      [&](const std::string &x) -> size_t { ++hits[2]; seen = &x; return 2; }, [&](const double &x) -> size_t { ++hits[1]; seen = &x; return 1; });
  PBT_CHECK(s, got == kind, "branch ", got, " was taken");
  int total = 0;
  for (int h : hits) total += h;
  PBT_CHECK(s, total == 1 && hits[kind] == 1, "branches were run ", total, " times");
  const void *inside = std::visit([](const auto &x) -> const void * { return &x; }, v);
  PBT_CHECK(s, seen == inside, "the branch was given a copy");
  // Mutation and references out
  struct Change {
    static void apply(int &x) { x += 1; }
    static void apply(double &x) { x = 1.5; }
    static void apply(std::string &x) { x += "!"; }
    static void apply(A &x) { x.x = 77; }
    static void apply(B &x) { x.x = 78; }
    static void apply(std::vector<int> &x) { x.push_back(5); }
    static void apply(bool &x) { x = !x; }
  };
  const void *ref = &match(v, [](auto &&x) -> const char & {
    Change::apply(x);
    return reinterpret_cast<const char &>(x);
  });
  PBT_CHECK(s, ref == inside, "a reference result refers to something else");
  PBT_CHECK(s, v.index() == kind, "the alternative changed");
  bool changed = false;
  switch (kind) {
    case 0:
      changed = std::get<0>(v) == std::get<0>(before) + 1;
      break;
    case 1:
      changed = std::get<1>(v) == 1.5;
      break;
    case 2:
      changed = std::get<2>(v) == std::get<2>(before) + "!";
      break;
    case 3:
      changed = std::get<3>(v).x == 77;
      break;
    case 4:
      changed = std::get<4>(v).x == 78;
      break;
    case 5:
      changed = std::get<5>(v).size() == std::get<5>(before).size() + 1;
      break;
    default:
      changed = std::get<6>(v) != std::get<6>(before);
  }
  PBT_CHECK(s, changed, "a change made in a branch was lost");
  // Branches that take their argument by value get a copy
  {
    const Var now = v;
    Var copied;
    match(
        v, [&](int x) { copied = x; }, [&](double x) { copied = x; }, [&](std::string x) { x += ""; copied = std::move(x); },
        [&](A x) { copied = x; }, [&](B x) { copied = x; }, [&](std::vector<int> x) { copied = std::move(x); }, [&](bool x) { copied = x; });
    PBT_CHECK(s, v.index() == kind && copied.index() == kind, "the alternative changed when it was taken by value");
    PBT_CHECK(s, (kind != 2 || (std::get<2>(v) == std::get<2>(now) && std::get<2>(copied) == std::get<2>(now))) &&
                     (kind != 5 || (std::get<5>(v) == std::get<5>(now) && std::get<5>(copied) == std::get<5>(now))),
              "a branch that takes its argument by value emptied the variant");
  }
  // Generic branch as fallback
  const int which = match(
      v, [](const std::string &) { return 1; }, [](const auto &) { return 2; });
  PBT_CHECK(s, which == (kind == 2 ? 1 : 2), "the generic branch was taken for ", kind);
}

void moving(Src &s) {
  using Own = std::variant<std::unique_ptr<int>, std::string>;
  const bool ptr = s.coin();
  const int n = static_cast<int>(s.below(1000));
  Own v;
  if (ptr) v = std::make_unique<int>(n);
  else v = "number " + std::to_string(n) + " with some padding to leave the small string buffer";
  s.nontrivial();
  const std::string out = match(
      std::move(v), [](std::unique_ptr<int> &&p) { std::unique_ptr<int> q{std::move(p)}; return std::to_string(*q); },
      [](std::string &&t) { std::string u{std::move(t)}; return u; });
  PBT_CHECK(s, out == (ptr ? std::to_string(n) : "number " + std::to_string(n) + " with some padding to leave the small string buffer"), "moved ", out);
  PBT_CHECK(s, !ptr || std::get<0>(v) == nullptr, "the value was not moved");
  // Exceptions pass through
  bool thrown = false;
  Own w{std::string{"x"}};
  try {
    match(
        w, [](const std::unique_ptr<int> &) {}, [](const std::string &) { throw std::runtime_error{"from a branch"}; });
  } catch (const std::runtime_error &e) {
    thrown = std::string{e.what()} == "from a branch";
  }
  PBT_CHECK(s, thrown, "an exception from a branch was lost");
}

struct Thing {
  int value = 0;
  int bump(int by) { return value += by; }
  int peek() const { return value; }
};

void references(Src &s) {
  std::vector<Thing> things(3);
  std::vector<int> model(3, 0);
  std::vector<NullableReference<Thing>> refs(4);
  std::vector<int> to(4, -1);
  const size_t steps = 1 + s.below(20);
  for (size_t k = 0; k < steps; ++k) {
    const size_t i = s.below(4);
    const size_t j = s.below(4);
    const int t = static_cast<int>(s.below(3));
    switch (s.below(6)) {
      case 0:
        s.note(i, " -> thing ", t);
        refs[i] = NullableReference<Thing>{things[t]};
        to[i] = t;
        break;
      case 1:
        s.note(i, " -> nothing");
        refs[i] = s.coin() ? NullableReference<Thing>{} : null_reference<Thing>;
        to[i] = -1;
        break;
      case 2:
        s.note(i, " = ", j);
        refs[i] = refs[j];
        to[i] = to[j];
        break;
      case 3: {
        s.note("bump through ", i);
        const int by = static_cast<int>(s.range(1, 5));
        if (to[i] < 0) {
          PBT_CHECK(s, pbt::throws<AssertException>([&] { refs[i]->bump(by); }), "an empty reference was followed with ->");
          s.nontrivial();
        } else {
          model[to[i]] += by;
          PBT_CHECK(s, refs[i]->bump(by) == model[to[i]], "wrong object behind ->");
        }
        break;
      }
      case 4: {
        s.note("assign through ", i);
        if (to[i] < 0) {
          PBT_CHECK(s, pbt::throws<AssertException>([&] { (*refs[i]).value = 1; }), "an empty reference was followed with *");
          s.nontrivial();
        } else {
          (*refs[i]).value = static_cast<int>(k);
          model[to[i]] = static_cast<int>(k);
        }
        break;
      }
      default: {
        s.note("in-out ", t);
        const auto f = [](InOut<Thing> x, int v) {
          x->value = v;
          (*x).bump(1);
          return &*x;
        };
        PBT_CHECK(s, f(InOut{things[t]}, static_cast<int>(k)) == &things[t], "an in-out parameter refers to another object");
        model[t] = static_cast<int>(k) + 1;
        InOut<Thing> a{things[t]};
        InOut<Thing> b{a};
        b->bump(2);
        model[t] += 2;
        PBT_CHECK(s, a->peek() == model[t] && a.operator->() == &things[t], "a copy of an in-out parameter refers to another object");
      }
    }
    for (size_t n = 0; n < 4; ++n) {
      PBT_CHECK(s, refs[n].has_value() == (to[n] >= 0) && static_cast<bool>(refs[n]) == (to[n] >= 0), "reference ", n, " has_value");
      if (to[n] >= 0) {
        PBT_CHECK(s, &*refs[n] == &things[to[n]], "reference ", n, " refers to another object");
        const NullableReference<Thing> &c = refs[n];
        PBT_CHECK(s, c.operator->() == &things[to[n]] && c->peek() == model[to[n]], "reference ", n, " ->");
      }
    }
    for (size_t n = 0; n < 3; ++n) PBT_CHECK(s, things[n].value == model[n], "object ", n, " is ", things[n].value, " expected ", model[n]);
  }
  // References to const and to base-like views
  const Thing fixed{9};
  NullableReference<const Thing> cr{fixed};
  PBT_CHECK(s, cr->peek() == 9 && &*cr == &fixed, "reference to const");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C20",
      "random variants of seven alternatives (derived and base class, bool and int among them) matched by const reference, "
      "mutable reference and as rvalues, and histories of up to 20 operations on nullable references and in-out parameters "
      "against a pointer model; non-trivial: a class alternative / an empty reference was followed",
      {
          {"match", matching, 60000, 2000000},
          {"match_moves", moving, 30000, 500000},
          {"references", references, 40000, 1000000},
      },
      {}};
}
