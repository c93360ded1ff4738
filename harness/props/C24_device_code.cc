// C24: getting, keeping and renewing access tokens.
// @quick_scale: 3
#include <cpr/cpr.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>

#include "pbt.hh"
#include "resim/assert/assert.hh"
#include "resim/auth/device_code_client.hh"

// Time passes as the check says while a client is running: sleeping advances the clock at once.
namespace {
thread_local bool g_virtual = false;
thread_local int64_t g_now = 0;  // ns
thread_local int64_t g_slept = 0;
int real_clock(clockid_t id, timespec *ts) { return static_cast<int>(syscall(SYS_clock_gettime, id, ts)); }
int64_t nanos(const timespec &t) { return static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec; }
}  // namespace
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!g_virtual) return real_clock(id, ts);
  g_now += 1000;
  ts->tv_sec = g_now / 1000000000;
  ts->tv_nsec = g_now % 1000000000;
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
  if (!g_virtual) return static_cast<int>(syscall(SYS_clock_nanosleep, id, flags, req, rem));
  const int64_t to = (flags & TIMER_ABSTIME) != 0 ? nanos(*req) : g_now + nanos(*req);
  if (to > g_now) g_now = to;
  return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!g_virtual) return static_cast<int>(syscall(SYS_clock_nanosleep, CLOCK_REALTIME, 0, req, rem));
  g_now += nanos(*req);
  return 0;
}
int usleep(useconds_t us) {
  const timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned sec) {
  const timespec t{static_cast<time_t>(sec), 0};
  nanosleep(&t, nullptr);
  return 0;
}
}

namespace {
using pbt::Src;
using resim::AssertException;
using resim::auth::DeviceCodeClient;
namespace fs = std::filesystem;
constexpr int64_t SECOND = 1000000000;

enum Ending { TOKEN, NO_TOKEN, EMPTY_TOKEN, GARBAGE, NEVER };
struct Login {
  long code = 200;
  bool garbage = false;     // The first answer does not parse
  int64_t expires_in = 100;
  std::optional<int64_t> interval;
  int pending = 0;  // Answers before the last one
  Ending ending = TOKEN;
  int64_t latency = SECOND / 4;
  std::string token;
  std::string device_code;
  std::string page = "https://x/activate?u=late";  // To log in at
};

std::string escape(const std::string &t) {
  std::string out;
  for (char c : t) {
    if (c == '"' || c == '\\') out += '\\';
    if (static_cast<unsigned char>(c) < 0x20) {
      static const char HEX[] = "0123456789abcdef";
      out += c == '\n' ? std::string("\\n") : std::string("\\u00") + HEX[c >> 4] + HEX[c & 15];
    } else {
      out += c;
    }
  }
  return out;
}
// The value of a key of a flat JSON object of strings
std::optional<std::string> field(const std::string &json, const std::string &key) {
  size_t at = json.find("\"" + key + "\"");
  if (at == std::string::npos) return std::nullopt;
  at = json.find(':', at);
  if (at == std::string::npos) return std::nullopt;
  at = json.find('"', at);
  if (at == std::string::npos) return std::nullopt;
  std::string out;
  for (++at; at < json.size() && json[at] != '"'; ++at) {
    if (json[at] == '\\' && at + 1 < json.size()) {
      ++at;
      if (json[at] == 'u' && at + 4 < json.size()) {
        out += static_cast<char>(std::stoi(json.substr(at + 1, 4), nullptr, 16));
        at += 4;
      } else {
        out += json[at] == 'n' ? '\n' : json[at];
      }
    } else {
      out += json[at];
    }
  }
  return out;
}

struct Server {
  DeviceCodeClient::Config config;
  std::vector<Login> logins;
  size_t login = 0;  // Logins begun
  const Login *now = nullptr;
  int polls = 0;
  std::vector<int64_t> poll_times;
  int64_t started = 0;  // End of the first answer
  int requests = 0;
  std::string problem;
  std::ostringstream shown;  // To the user
  size_t shown_before = 0;   // The login

  void bad(const std::string &t) {
    if (problem.empty()) problem = t;
  }
  cpr::Response answer(const cpr::Request &r) {
    ++requests;
    if (r.method != "POST") bad("request by " + r.method);
    const auto type = r.header.find("Content-Type");
    if (type == r.header.end() || type->second != "application/json") bad("content type");
    const auto expect = [&](const std::string &key, const std::string &value) {
      const auto got = field(r.body.data, key);
      if (got.value_or("") != value) bad(key + " is '" + got.value_or("(none)") + "' instead of '" + value + "' in " + r.body.data);
    };
    if (r.url.str() == config.server + "/oauth/device/code") {
      static const Login DEFAULT;
      now = login < logins.size() ? &logins[login] : &DEFAULT;
      ++login;
      polls = 0;
      poll_times.clear();
      shown_before = shown.str().size();
      expect("client_id", config.client_id);
      expect("scope", config.scope);
      expect("audience", config.audience);
      g_now += now->latency;
      started = g_now;
      if (now->garbage) return {now->code, "no json {"};
      std::string text = R"({"device_code": ")" + escape(now->device_code) + R"(", "user_code": "u", "expires_in": )" + std::to_string(now->expires_in);
      if (now->interval) text += R"(, "interval": )" + std::to_string(*now->interval);
      return {now->code, text + R"(, "verification_uri": "https://x/activate", "verification_uri_complete": ")" + now->page + "\"}"};
    }
    if (r.url.str() == config.server + "/oauth/token") {
      if (now == nullptr) {
        bad("a token was asked for without a device code");
        return {400, "{}"};
      }
      expect("grant_type", "urn:ietf:params:oauth:grant-type:device_code");
      expect("device_code", now->device_code);
      expect("client_id", config.client_id);
      if (shown.str().find(now->page, shown_before) == std::string::npos) bad("a token was asked for without showing " + now->page + " to the user");
      poll_times.push_back(g_now);
      g_now += now->latency;
      if (now->ending == NEVER || polls++ < now->pending) {
        return {403, R"({"error": "authorization_pending", "error_description": "User has yet to authorize device code."})"};
      }
      switch (now->ending) {
        case TOKEN:
          return {200, R"({"access_token": ")" + escape(now->token) + R"(", "expires_in": 86400, "token_type": "Bearer"})"};
        case NO_TOKEN:
          return {200, R"({"token_type": "Bearer"})"};
        case EMPTY_TOKEN:
          return {200, R"({"access_token": ""})"};
        default:
          return {200, "<html>"};
      }
    }
    bad("a request to " + r.url.str());
    return {404, "{}"};
  }
};

// What a login comes to. The outcome is open if time runs out just when something happens.
struct Expected {
  bool success = false;
  bool open = false;
  std::vector<int64_t> polls;  // Relative to the first answer
};
Expected simulate(const Login &l) {
  Expected e;
  if (l.code != 200 || l.garbage) return e;
  int64_t t = 0;
  const int64_t end = l.expires_in * SECOND;
  int n = 0;
  while (true) {
    if (std::abs(t - end) < SECOND / 20) e.open = l.expires_in != 0 || e.open;
    if (t >= end) return e;
    e.polls.push_back(t);
    t += l.latency;
    if (l.ending == NEVER || n++ < l.pending) {
      t += l.interval.value_or(0) * SECOND;
      continue;
    }
    e.success = l.ending == TOKEN;
    return e;
  }
}

std::string token_text(Src &s, int n) {
  static const std::vector<std::string> KINDS{"t", "eyJhbGciOiJSUzI1NiJ9.eyJpc3Mi.c2ln", "with space ", " leading", "quote\"back\\slash", "two\nlines", "{}%s"};
  static const std::vector<std::string> ENDS{" ", "\n", "\r\n", "\t", std::string("\0", 1), std::string("\0tail", 5), "\xc3\xa9"};
  return s.pick(KINDS) + (s.coin() ? "" : std::string(s.below(s.chance(1, 4) ? 70000 : 5000), 'x')) + "#" + std::to_string(n) + (s.chance(1, 3) ? s.pick(ENDS) : "");
}
Login login_of(Src &s, int n) {
  Login l;
  l.token = token_text(s, n);
  l.device_code = "device-" + std::to_string(n) + (s.coin() ? "\"{}" : "");
  l.page = "https://x/activate?user_code=" + std::to_string(n) + "-" + std::to_string(s.below(10000));
  l.latency = s.range(200, 1800) * (SECOND / 1000);
  l.expires_in = s.coin() ? 900 : s.range(0, 40);
  if (s.chance(1, 8)) l.expires_in = s.range(40, 4000);
  if (s.chance(3, 4)) l.interval = s.chance(1, 6) ? s.range(8, 400) : s.range(0, 7);
  l.pending = static_cast<int>(s.below(s.coin() ? 3 : 12));
  switch (s.weighted({8, 1, 1, 1, 1, 1, 1})) {
    case 0:
      break;
    case 1:
      l.ending = NO_TOKEN;
      break;
    case 2:
      l.ending = EMPTY_TOKEN;
      break;
    case 3:
      l.ending = GARBAGE;
      break;
    case 4:
      l.ending = NEVER;
      l.expires_in = s.chance(1, 4) && l.interval.value_or(0) > 7 ? s.range(0, 4000) : s.range(0, 60);
      break;
    case 5:
      l.garbage = true;
      break;
    default:
      l.code = s.pick(std::vector<long>{201, 400, 401, 403, 404, 429, 500, 0});
  }
  return l;
}
std::string show(const Login &l) {
  std::ostringstream o;
  o << "code " << l.code << (l.garbage ? " garbage" : "") << " expires_in " << l.expires_in << " interval " << l.interval.value_or(-1) << " latency " << l.latency / 1e9
    << " pending " << l.pending << " ending " << l.ending;
  return o.str();
}

std::optional<std::string> read_file(const fs::path &p) {
  if (!fs::exists(p)) return std::nullopt;
  std::ifstream f{p, std::ios::binary};
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

void history(Src &s) {
  const char *scratch = getenv("PBT_SCRATCH");
  PBT_CHECK(s, scratch != nullptr && fs::is_directory(scratch), "no scratch directory");
  const fs::path home = fs::path{scratch} / ("tokens-" + std::to_string(getpid()));
  fs::remove_all(home);
  fs::create_directories(home);
  Server server;
  server.config = {.server = s.coin() ? "https://resim.us.auth0.com" : "http://localhost:1234",
                   .client_id = s.pick(std::vector<std::string>{"id", "id \"quoted\"", "RNWJ3idL2UadBBzDqAaq11G9JIgMh7iy"}),
                   .scope = s.pick(std::vector<std::string>{"view:all", "a b c"}),
                   .audience = "https://api.resim.ai",
                   .token_path = s.pick(std::vector<fs::path>{home / "token", home / "deeper" / ".resim" / "view_token", "token", "deeper/token"})};
  // Relative paths are relative to the directory the program runs in
  struct Directory {
    fs::path old = fs::current_path();
    ~Directory() { fs::current_path(old); }
  } directory;
  fs::current_path(home);
  s.note("token path ", server.config.token_path.string());
  const size_t logins = s.below(8);
  for (size_t i = 0; i < logins; ++i) {
    server.logins.push_back(login_of(s, static_cast<int>(i)));
    s.note("login ", i, ": ", show(server.logins.back()));
  }
  Login plain;
  plain.token = "late";
  plain.device_code = "late";
  for (size_t i = 0; i < 110; ++i) server.logins.push_back(plain);

  constexpr size_t CLIENTS = 3;
  std::vector<std::unique_ptr<DeviceCodeClient>> clients;
  std::vector<std::string> memory(CLIENTS);
  std::optional<std::string> disk;
  for (size_t i = 0; i < CLIENTS; ++i) clients.push_back(std::make_unique<DeviceCodeClient>(server.config));
  cpr::transport() = [&](const cpr::Request &r) { return server.answer(r); };
  struct Restore {
    std::streambuf *out;
    std::streambuf *err;
    ~Restore() {
      std::cout.rdbuf(out);
      std::cerr.rdbuf(err);
      cpr::transport() = nullptr;
      g_virtual = false;
    }
  } restore{std::cout.rdbuf(server.shown.rdbuf()), std::cerr.rdbuf(server.shown.rdbuf())};

  timespec ts{};
  real_clock(CLOCK_MONOTONIC, &ts);
  g_now = nanos(ts);
  size_t fetched = 0;
  size_t failed = 0;
  size_t cached = 0;
  const size_t steps = 1 + s.count(14, 100);
  for (size_t k = 0; k < steps; ++k) {
    const size_t i = s.below(CLIENTS);
    switch (s.weighted({6, 2, 1, 1, 1})) {
      case 0: {
        s.note("get ", i);
        const int requests = server.requests;
        const size_t login = server.login;
        std::string got;
        bool threw = false;
        g_virtual = true;
        try {
          got = clients[i]->get_jwt();
        } catch (const AssertException &) {
          threw = true;
        }
        g_virtual = false;
        PBT_CHECK(s, server.problem.empty(), "step ", k, ": ", server.problem);
        if (!memory[i].empty() || (disk && !disk->empty())) {
          PBT_CHECK(s, !threw, "step ", k, ": a cached token is not given out");
          PBT_CHECK(s, server.requests == requests, "step ", k, ": a token was fetched although one is cached");
          if (memory[i].empty()) memory[i] = *disk;
          PBT_CHECK(s, got == memory[i], "step ", k, ": got '", got.substr(0, 100), "' of ", got.size(), " instead of '", memory[i].substr(0, 100), "' of ", memory[i].size());
          ++cached;
          break;
        }
        const Login &l = server.logins[login];
        PBT_CHECK(s, server.login == login + 1, "step ", k, ": ", server.login - login, " logins were begun");
        const Expected e = simulate(l);
        if (!e.open) {
          PBT_CHECK(s, threw == !e.success, "step ", k, threw ? ": failed unexpectedly" : ": succeeded unexpectedly");
          PBT_CHECK(s, server.poll_times.size() == e.polls.size(), "step ", k, ": asked ", server.poll_times.size(), " times for the token instead of ", e.polls.size());
          for (size_t n = 0; n < e.polls.size(); ++n) {
            PBT_CHECK(s, std::abs(server.poll_times[n] - server.started - e.polls[n]) < SECOND / 20, "step ", k, ": asked for the ", n, "th time after ",
                      (server.poll_times[n] - server.started) / 1e9, " s instead of ", e.polls[n] / 1e9);
          }
        } else {
          s.label("outcome open");
        }
        if (threw) {
          ++failed;
          PBT_CHECK(s, read_file(server.config.token_path).value_or("").empty(), "step ", k, ": a failed login left a token file");
        } else {
          PBT_CHECK(s, l.ending == TOKEN && got == l.token, "step ", k, ": got '", got.substr(0, 100), "' instead of '", l.token.substr(0, 100), "'");
          memory[i] = got;
          disk = got;
          ++fetched;
        }
        break;
      }
      case 1:
        s.note("refresh ", i);
        clients[i]->refresh();
        memory[i].clear();
        disk.reset();
        break;
      case 2:
        s.note("restart ", i);
        clients[i] = std::make_unique<DeviceCodeClient>(server.config);
        memory[i].clear();
        break;
      case 3:
        s.note("the file is deleted");
        fs::remove(server.config.token_path);
        disk.reset();
        break;
      default: {
        // A file without content, as left by a program that was stopped while storing one, has no token
        const std::string t = s.chance(1, 4) ? "" : token_text(s, 100 + static_cast<int>(k));
        s.note(t.empty() ? "the file is emptied" : "another program stores a token");
        if (server.config.token_path.has_parent_path()) fs::create_directories(server.config.token_path.parent_path());
        std::ofstream{server.config.token_path, std::ios::binary} << t;
        disk = t;
      }
    }
    const auto file = read_file(server.config.token_path);
    PBT_CHECK(s, file.has_value() == disk.has_value(), "step ", k, file ? ": a token file is there" : ": the token file is missing");
    PBT_CHECK(s, !file || *file == *disk, "step ", k, ": the token file has other content");
  }
  if ((fetched > 0 && cached > 0) || failed > 0) s.nontrivial();
  fs::remove_all(home);
}
// Where no file can be stored, a token is still either the one fetched or a failure
void nowhere(Src &s) {
  const char *scratch = getenv("PBT_SCRATCH");
  PBT_CHECK(s, scratch != nullptr && fs::is_directory(scratch), "no scratch directory");
  const fs::path home = fs::path{scratch} / ("nowhere-" + std::to_string(getpid()));
  fs::remove_all(home);
  fs::create_directories(home);
  std::ofstream{home / "file"} << "not a directory";
  Server server;
  server.config = {.server = "http://localhost:1234", .client_id = "id", .scope = "view:all", .audience = "https://api.resim.ai", .token_path = home / "file" / "token"};
  const size_t logins = s.below(6);
  for (size_t i = 0; i < logins; ++i) {
    server.logins.push_back(login_of(s, static_cast<int>(i)));
    s.note("login ", i, ": ", show(server.logins.back()));
  }
  Login plain;
  plain.device_code = "late";
  for (size_t i = 0; i < 20; ++i) {
    plain.token = "late" + std::to_string(i);
    server.logins.push_back(plain);
  }
  DeviceCodeClient client{server.config};
  cpr::transport() = [&](const cpr::Request &r) { return server.answer(r); };
  struct Restore {
    std::streambuf *out;
    std::streambuf *err;
    ~Restore() {
      std::cout.rdbuf(out);
      std::cerr.rdbuf(err);
      cpr::transport() = nullptr;
      g_virtual = false;
    }
  } restore{std::cout.rdbuf(server.shown.rdbuf()), std::cerr.rdbuf(server.shown.rdbuf())};
  timespec ts{};
  real_clock(CLOCK_MONOTONIC, &ts);
  g_now = nanos(ts);
  const size_t steps = 2 + s.below(5);
  for (size_t k = 0; k < steps; ++k) {
    std::string got;
    bool threw = false;
    g_virtual = true;
    try {
      got = client.get_jwt();
    } catch (const std::exception &) {
      threw = true;
    }
    g_virtual = false;
    PBT_CHECK(s, server.problem.empty(), "step ", k, ": ", server.problem);
    s.note("get: ", threw ? "failed" : "succeeded");
    if (threw) continue;
    s.nontrivial();
    const Login &l = server.logins[server.login - 1];
    PBT_CHECK(s, l.ending == TOKEN && got == l.token, "step ", k, ": got '", got.substr(0, 100), "' although '", l.token.substr(0, 100), "' was fetched last");
  }
  fs::remove_all(home);
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C24",
      "histories of up to 14 operations (get, refresh, restart, deletion and replacement of the stored token) of three clients "
      "sharing a token file against a scripted login server (pending answers, intervals, expiry, latencies, refusals, garbage, "
      "missing tokens), with virtual time, against a model of memory, disk and server; the same where no file can be stored; non-trivial: a token was both fetched "
      "and taken from a cache, or a login failed",
      {
          {"history", history, 20000, 500000},
          {"nowhere", nowhere, 2000, 50000},
      },
      {"the HTTP library is replaced by an in-process stand-in", "sleeping and the monotonic clock are replaced by virtual time",
       "an outcome is left open where a login expires within 50 ms of a request"}};
}
