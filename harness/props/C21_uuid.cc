// C21: identifiers.
// @quick_scale: 5
// @variants: asan tsan
#include <set>
#include <thread>
#include <unordered_map>
#include <unordered_set>

#include "mutate.hh"

namespace {
using namespace gen;
using Id = std::array<unsigned char, 16>;

std::string format(const Id &id, int upper = 0) {
  static const std::string LOW = "0123456789abcdef";
  static const std::string UP = "0123456789ABCDEF";
  std::string out;
  for (size_t i = 0; i < 16; ++i) {
    if (i == 4 || i == 6 || i == 8 || i == 10) out += '-';
    const std::string &d = (upper >> i) & 1 ? UP : LOW;
    out += d[id[i] >> 4U];
    out += d[id[i] & 15U];
  }
  return out;
}

Id id_of(Src &s) {
  Id id{};
  switch (s.weighted({4, 2, 1, 1})) {
    case 0:
      for (auto &c : id) c = static_cast<unsigned char>(s.below(256));
      break;
    case 1:
      id[s.below(16)] = static_cast<unsigned char>(s.below(256));
      break;
    case 2:
      id.fill(static_cast<unsigned char>(s.below(256)));
      break;
    default:
      break;
  }
  return id;
}

void text(Src &s) {
  const Id id = id_of(s);
  const UUID u{id};
  const std::string want = format(id);
  s.note(want);
  if (id != Id{}) s.nontrivial();
  PBT_CHECK(s, u.id() == id, "the raw id changed");
  PBT_CHECK(s, u.to_string() == want, "formatted as ", u.to_string());
  PBT_CHECK(s, UUID{want}.id() == id, "parsed back as ", UUID{want}.to_string());
  const std::string mixed = format(id, static_cast<int>(s.below(65536)));
  PBT_CHECK(s, UUID{mixed} == u, "upper case parsed differently: ", mixed);
  PBT_CHECK(s, u.is_null() == (id == Id{}), "is_null");
  PBT_CHECK(s, std::hash<UUID>{}(UUID{mixed}) == std::hash<UUID>{}(u), "equal ids have different hashes");
}

void equality(Src &s) {
  const Id a = id_of(s);
  Id b = a;
  const bool same = s.chance(1, 4);
  if (!same) {
    b[s.below(16)] ^= static_cast<unsigned char>(1U << s.below(8));
    if (s.chance(1, 4)) b = id_of(s);
  }
  s.note(format(a), " ", format(b));
  const UUID x{a};
  const UUID y{b};
  if (a != b) s.nontrivial();
  PBT_CHECK(s, (x == y) == (a == b), "== says ", x == y);
  PBT_CHECK(s, (x != y) == (a != b), "!= says ", x != y);
  PBT_CHECK(s, (x.to_string() == y.to_string()) == (a == b), "texts do not tell them apart");
  PBT_CHECK(s, (Frame{x} == Frame{y}) == (a == b) && (Frame{x} != Frame{y}) == (a != b), "frames do not tell them apart");
  PBT_CHECK(s, Frame{x}.is_null() == (a == Id{}) && Frame{x}.id().id() == a, "frame id");
}

void parsing(Src &s) {
  std::string t = format(id_of(s));
  switch (s.weighted({4, 2, 2, 1})) {
    case 0: {
      const size_t n = 1 + s.below(2);
      for (size_t i = 0; i < n; ++i) t = strange_string(s, t, false);
      break;
    }
    case 1:  // Any character anywhere
      t[s.below(36)] = static_cast<char>(s.below(256));
      break;
    case 2: {  // Other separators, all or some of them
      const char c = s.coin() ? s.pick(std::vector<char>{'_', ' ', ':', '.', '/', '\0', '+', 'a', '0'}) : static_cast<char>(s.below(256));
      const bool all = s.coin();
      for (const size_t i : {8U, 13U, 18U, 23U})
        if (all || s.coin()) t[i] = c;
      break;
    }
    default: {  // Separators elsewhere
      const size_t from = s.pick(std::vector<size_t>{8, 13, 18, 23});
      std::swap(t[from], t[s.below(36)]);
    }
  }
  s.note("'", t, "' of ", t.size());
  bool valid = t.size() == 36;
  for (size_t i = 0; valid && i < 36; ++i) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    valid = dash ? t[i] == '-' : std::isxdigit(static_cast<unsigned char>(t[i])) != 0;
  }
  if (!valid) s.nontrivial();
  bool accepted = true;
  Id got{};
  try {
    got = UUID{t}.id();
  } catch (const AssertException &) {
    accepted = false;
  }
  PBT_CHECK(s, accepted == valid, accepted ? "accepted" : "refused");
  if (accepted) {
    std::string low = t;
    for (auto &c : low) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    PBT_CHECK(s, format(got) == low, "parsed as ", format(got));
  }
}

void containers(Src &s) {
  std::unordered_map<UUID, int> map;
  std::map<Id, int> model;
  std::vector<Id> pool;
  const size_t steps = s.below(40);
  for (size_t i = 0; i < steps; ++i) {
    const Id id = !pool.empty() && s.coin() ? pool[s.below(pool.size())] : id_of(s);
    pool.push_back(id);
    if (s.chance(1, 4)) {
      PBT_CHECK(s, map.erase(UUID{format(id)}) == model.erase(id), "erase");
    } else {
      map[UUID{id}] = static_cast<int>(i);
      model[id] = static_cast<int>(i);
    }
    PBT_CHECK(s, map.size() == model.size(), "sizes ", map.size(), " and ", model.size());
    const auto it = map.find(UUID{format(id)});
    PBT_CHECK(s, (it != map.end()) == (model.count(id) > 0) && (it == map.end() || it->second == model[id]), "lookup");
  }
  if (model.size() > 3) s.nontrivial();
}

void fresh(Src &s) {
  const size_t threads = 1 + s.below(6);
  const size_t each = s.chance(1, 10) ? static_cast<size_t>(s.range(1000, 12000)) / threads : 20 + s.below(300);
  s.note(threads, " threads, ", each, " ids each");
  if (threads > 1) s.nontrivial();
  std::vector<std::vector<UUID>> made(threads);
  std::vector<std::string> wrong(threads);
  std::vector<std::thread> running;
  for (size_t i = 0; i < threads; ++i) {
    running.emplace_back([&, i] {
      for (size_t k = 0; k < each; ++k) made[i].push_back(k % 2 == 0 ? UUID::new_uuid() : Frame::new_frame().id());
      // Printed, parsed and hashed while the others do the same
      for (const auto &u : made[i]) {
        const std::string t = u.to_string();
        if (t != format(u.id()) || !(UUID{t} == u) || std::hash<UUID>{}(u) != std::hash<UUID>{}(UUID{u.id()})) wrong[i] = t;
      }
    });
  }
  for (auto &t : running) t.join();
  for (const auto &w : wrong) PBT_CHECK(s, w.empty(), "an id was printed as ", w, " while other threads printed theirs");
  std::set<Id> all;
  for (const auto &v : made) {
    for (const auto &u : v) {
      PBT_CHECK(s, !u.is_null(), "a fresh id is null");
      PBT_CHECK(s, all.insert(u.id()).second, "an id was made twice: ", u.to_string());
      PBT_CHECK(s, UUID{u.to_string()} == u, "a fresh id does not survive formatting");
    }
  }
  PBT_CHECK(s, UUID{}.is_null() && Frame{}.is_null() && Frame::null_frame().is_null(), "default ids are not null");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C21",
      "raw ids of every pattern (random, one byte, constant, null) with their texts in any case, pairs differing in one bit, "
      "texts damaged by insertion, deletion, substitution, embedded nulls and extensions, hash-map histories against an "
      "ordered model, and ids made by up to six threads at once; non-trivial: not null / different / invalid text",
      {
          {"text", text, 30000, 1000000},
          {"equality", equality, 30000, 1000000},
          {"parsing", parsing, 40000, 1500000},
          {"containers", containers, 8000, 200000},
          {"fresh", fresh, 300, 5000, true},
      },
      {"fresh ids are compared with each other, not with the system's past"}};
}
