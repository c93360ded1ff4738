// C17: event schedules.
// @quick_scale: 15
#include <list>
#include <memory>

#include "pbt.hh"
#include "resim/assert/assert.hh"
#include "resim/time/event_schedule.hh"

namespace {
using pbt::Src;
using resim::AssertException;
using namespace resim::time;

Timestamp when(Src &s) {
  switch (s.weighted({5, 2, 1, 1, 3})) {
    case 0:
      return Timestamp{Duration{s.range(0, 4)}};  // Ties are common
    case 1:
      return Timestamp{Duration{s.range(-10, 10)}};
    case 2:
      return Timestamp{Duration{static_cast<int64_t>(s.bits())}};
    case 4:  // Wall clock times a few nanoseconds apart
      return Timestamp{Duration{1'700'000'000'123'456'789 + s.range(0, 5)}};
    default:
      return Timestamp{Duration{s.coin() ? std::numeric_limits<int64_t>::max() : std::numeric_limits<int64_t>::min()}};
  }
}

template <typename Payload>
Payload make(int id);
template <>
int make<int>(int id) {
  return id;
}
template <>
std::string make<std::string>(int id) {
  return "a payload long enough to be on the heap #" + std::to_string(id);
}
template <>
std::shared_ptr<int> make<std::shared_ptr<int>>(int id) {
  return std::make_shared<int>(id);
}
bool same(int a, int id) { return a == id; }
bool same(const std::string &a, int id) { return a == make<std::string>(id); }
bool same(const std::shared_ptr<int> &a, int id) { return a && *a == id; }

// Model: a list kept in order by stable insertion
template <typename Payload, typename Count>
void history(Src &s) {
  EventSchedule<Payload, Count> q;
  struct E {
    Timestamp t;
    int id;
  };
  std::list<E> model;
  uint64_t inserted = 0;
  const uint64_t capacity = std::numeric_limits<Count>::max();
  const bool small = capacity < 1000;
  const size_t n = small ? 50 + s.below(500) : s.count(s.coin() ? 400 : 40, 5000);
  const unsigned push_weight = 1 + static_cast<unsigned>(s.below(4));
  bool tie = false;
  bool popped_then_pushed = false;
  bool popped = false;
  for (size_t k = 0; k < n; ++k) {
    const size_t op = s.weighted({push_weight, 2, s.chance(1, 8) ? 1U : 0U});
    if (op == 0) {
      const Timestamp t = when(s);
      const int id = static_cast<int>(inserted);
      s.note("schedule ", t.time_since_epoch().count(), " #", id);
      const bool full = inserted >= capacity;
      bool threw = false;
      try {
        q.schedule_event(t, make<Payload>(id));
      } catch (const AssertException &) {
        threw = true;
      }
      PBT_CHECK(s, threw == full, full ? "an exhausted schedule accepted an event" : "an event was refused", " after ", inserted);
      if (!threw) {
        ++inserted;
        auto it = model.end();
        while (it != model.begin() && std::prev(it)->t > t) --it;
        tie = tie || (it != model.begin() && std::prev(it)->t == t);
        model.insert(it, {t, id});
        popped_then_pushed = popped_then_pushed || popped;
      } else {
        s.label("exhausted");
      }
    } else if (op == 1) {
      if (model.empty()) continue;
      const auto &top = q.top_event();
      s.note("pop, expecting #", model.front().id);
      PBT_CHECK(s, top.time == model.front().t, "next event is at ", top.time.time_since_epoch().count(), " expected ", model.front().t.time_since_epoch().count());
      PBT_CHECK(s, same(top.payload, model.front().id), "the wrong event of that time is next, expected #", model.front().id);
      q.pop_event();
      model.pop_front();
      popped = true;
    } else {
      EventSchedule<Payload, Count> copy = q;
      if (s.coin()) {
        if (!model.empty()) copy.pop_event();  // Does not affect the original
      } else {
        q = std::move(copy);
      }
    }
    PBT_CHECK(s, q.size() == model.size(), "size ", q.size(), " expected ", model.size());
    if (!model.empty()) PBT_CHECK(s, q.top_event().time == model.front().t && same(q.top_event().payload, model.front().id), "next event after step ", k);
  }
  while (!model.empty()) {
    PBT_CHECK(s, q.top_event().time == model.front().t && same(q.top_event().payload, model.front().id), "draining: expected #", model.front().id);
    q.pop_event();
    model.pop_front();
  }
  PBT_CHECK(s, q.size() == 0, "not empty after draining");
  if (tie && popped_then_pushed) s.nontrivial();
}

// So many events that a counter of 16 bits would start again, at very few times
void many(Src &s) {
  EventSchedule<int> q;
  const int64_t base = s.coin() ? 0 : 1'700'000'000'123'456'789;
  const size_t times = 1 + s.below(3);
  std::vector<std::vector<int>> model(times);
  std::vector<size_t> next(times, 0);
  size_t left = 0;
  const int n = static_cast<int>(s.range(66000, 140000));
  // Pops keep the schedule short, or it grows
  const uint64_t pops = s.below(3);
  pbt::Src local(s.bits());
  s.note(n, " events at ", times, " times, pops ", pops);
  s.nontrivial();
  const auto pop = [&](int k) {
    size_t at = 0;
    while (next[at] == model[at].size()) ++at;
    const auto &e = q.top_event();
    PBT_CHECK(s, e.time == (Timestamp{Duration{base + static_cast<int64_t>(at)}}) && e.payload == model[at][next[at]], "after ", k, " events: next is #", e.payload, ", expected #", model[at][next[at]]);
    q.pop_event();
    ++next[at];
    --left;
  };
  for (int k = 0; k < n; ++k) {
    const size_t at = local.below(times);
    q.schedule_event(Timestamp{Duration{base + static_cast<int64_t>(at)}}, k);
    model[at].push_back(k);
    ++left;
    if (pops > 0 && left > (pops == 1 ? 10 : 1000)) pop(k);
  }
  PBT_CHECK(s, q.size() == left, "size ", q.size(), " expected ", left);
  while (left > 0) pop(n);
  PBT_CHECK(s, q.size() == 0, "not empty after draining");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C17",
      "histories of up to 550 schedule/inspect/pop/copy/move operations with many equal times and extreme times, for three "
      "payload types and three counter widths (the 8-bit one is driven to exhaustion), and of up to 140000 events, against a stably sorted list; "
      "non-trivial: contains equal times and an insertion after a removal",
      {
          {"int_payload", history<int, uint64_t>, 8000, 300000},
          {"string_payload", history<std::string, uint64_t>, 4000, 150000},
          {"pointer_payload", history<std::shared_ptr<int>, uint16_t>, 4000, 150000},
          {"many", many, 4, 100},
          {"exhaustion", history<std::string, uint8_t>, 2000, 80000},
      },
      {"an empty schedule is not inspected or popped"}};
}
