// C23: delivery of view updates to the server.
// @quick_scale: 5
#include <cpr/cpr.h>
#include <glog/logging.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <memory>
#include <set>

#include "primitives.hh"
#include "resim/auth/auth_client_interface.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"

namespace {
using namespace gen;
using resim::visualization::ViewClient;
namespace vp = resim::visualization::proto;
namespace fs = std::filesystem;

// What the tokens are: a counter, refreshed on request
struct Tokens {
  int generation = 0;
  int refreshes = 0;
  int asked = 0;
  std::set<int> failing;  // Requests for a token that fail
  bool failed = false;
  std::string current() const { return "token-" + std::to_string(generation); }
};
struct Auth : resim::auth::AuthClientInterface {
  explicit Auth(std::shared_ptr<Tokens> t) : tokens{std::move(t)} {}
  std::string get_jwt() override {
    if (tokens->failing.count(tokens->asked++) != 0) {
      tokens->failed = true;
      REASSERT(false, "no token");
    }
    return tokens->current();
  }
  void refresh() override {
    ++tokens->refreshes;
    ++tokens->generation;
  }
  std::shared_ptr<Tokens> tokens;
};

std::string text_of(Src &s, bool session) {
  if (session) {
    static const std::vector<std::string> IDS{"a", "0", "session-1", "8b3cfc1e-5be4-4a35-9e33-1d2a0a2f4c11", "x y", "{}", "%s%n", "a/b?c=d", "\xc3\xa9"};
    std::string id = s.pick(IDS);
    switch (s.below(4)) {
      case 0:
        return "\"" + id + "\"\n";
      case 1:
        return "\"" + id + "\"";
      case 2:
        return id + "\n";
      default:
        return id;
    }
  }
  static const std::vector<std::string> VIEWS{"", "{}", "{\"view\": \"https://app.resim.ai/view/1\"}", "not json", "{\"view\": 3}", "{\"other\": {}}",
                                              "\xff\xfe", "[", "null", "{\"view\": \"%s {}\"}"};
  if (s.coin()) {
    const std::string n = std::to_string(s.below(100000));
    const std::string view = "\"view\": \"https://app.resim.ai/view/" + n + "\"";
    return s.coin() ? "{" + view + "}" : "{\"id\": \"i" + n + "\", \"mcap\": \"https://m/" + n + "\", " + view + "}";
  }
  return s.pick(VIEWS);
}
std::string strip(const std::string &t) {
  std::string out;
  for (char c : t) {
    if (c != '"' && c != '\n') out += c;
  }
  return out;
}

// The page that the answer to an update says it can be seen on, if it does
std::string page_of(const std::string &text) {
  const std::string key = "\"view\": \"";
  const size_t at = text.find(key);
  return at == std::string::npos ? "" : text.substr(at + key.size(), text.find('"', at + key.size()) - at - key.size());
}
// What the user is told
struct Told : google::LogSink {
  Told() { google::AddLogSink(this); }
  ~Told() override { google::RemoveLogSink(this); }
  void send(google::LogSeverity, const char *, const char *, int, const struct ::tm *, const char *message, size_t size) override {
    text += std::string{message, size} + "\n";
  }
  std::string text;
};

enum Phase { SESSION, SESSION_AGAIN, UPDATE, UPDATE_AGAIN, GOOD, BAD };
struct Planned {
  long code;
  std::string text_session;
  std::string text_update;
};

struct Server {
  std::string base;
  std::shared_ptr<Tokens> tokens = std::make_shared<Tokens>();
  std::vector<Planned> plan;
  size_t at = 0;
  // State
  std::string session;
  Phase phase = GOOD;
  int due_refreshes = 0;
  long long last_number = -1;
  bool exact = true;  // The next number is known
  const ViewUpdate *update = nullptr;
  std::string body;  // Of the first attempt
  std::string problem;
  int requests = 0;
  std::string log;
  std::string page;  // Where the last update can be seen

  void bad(const std::string &t) {
    if (problem.empty()) problem = t;
  }
  cpr::Response answer(const cpr::Request &r) {
    ++requests;
    log += " " + r.method + " " + r.url.str();
    if (r.method != "POST") bad("request by " + r.method);
    if (r.bearers == 0 || r.bearer.token != tokens->current()) bad("request with token '" + r.bearer.token + "' while " + tokens->current() + " is current");
    if (tokens->refreshes != due_refreshes) bad("the token was refreshed " + std::to_string(tokens->refreshes) + " times instead of " + std::to_string(due_refreshes));
    const Planned p = at < plan.size() ? plan[at] : Planned{201, "late", "{}"};
    ++at;
    log += " -> " + std::to_string(p.code);
    const bool first = phase == SESSION || phase == UPDATE;
    switch (phase) {
      case SESSION:
      case SESSION_AGAIN:
        if (r.url.str() != base + "/view/sessions") bad("session request to " + r.url.str());
        if (p.code == 201) {
          session = strip(p.text_session);
          phase = UPDATE;
        } else if (p.code == 401 && first) {
          phase = SESSION_AGAIN;
          ++due_refreshes;
        } else {
          phase = BAD;
        }
        return {p.code, p.text_session};
      case UPDATE:
      case UPDATE_AGAIN: {
        const std::string prefix = base + "/view/sessions/" + session + "/updates/";
        const std::string url = r.url.str();
        if (url.rfind(prefix, 0) != 0) bad("update sent to " + url + " instead of " + prefix);
        const std::string number = url.substr(std::min(prefix.size(), url.size()));
        char *end = nullptr;
        const long long n = std::strtoll(number.c_str(), &end, 10);
        if (number != std::to_string(n)) bad("update number '" + number + "'");
        if (first) {
          if (exact ? n != last_number + 1 : n <= last_number) bad("update " + number + " after " + std::to_string(last_number));
          exact = true;
          last_number = n;
        } else if (n != last_number) {
          bad("the update was repeated as " + number + " instead of " + std::to_string(last_number));
        }
        const auto type = r.header.find("Content-Type");
        if (type == r.header.end() || type->second != "application/octet-stream") bad("content type");
        vp::ViewUpdate message;
        if (r.bodies != 1 || !message.ParseFromString(r.body.data)) {
          bad("the body is not an update");
        } else if (first) {
          const ViewUpdate got = vp::unpack(message);
          if (got.primitives.size() != update->primitives.size()) {
            bad(std::to_string(got.primitives.size()) + " objects in the body");
          } else {
            for (size_t i = 0; i < got.primitives.size(); ++i) {
              const std::string d = differ(update->primitives[i], got.primitives[i]);
              if (!d.empty()) bad("object " + std::to_string(i) + ": " + d);
            }
          }
          body = r.body.data;
        } else if (body != r.body.data) {
          bad("the repeated update has another body");
        }
        if (p.code == 201) {
          phase = GOOD;
          page = page_of(p.text_update);
        } else if (p.code == 401 && first) {
          phase = UPDATE_AGAIN;
          ++due_refreshes;
        } else {
          phase = BAD;
        }
        return {p.code, p.text_update};
      }
      default:
        bad("a request after the outcome was known: " + r.url.str());
        return {p.code, p.text_update};
    }
  }
};

ViewUpdate update_of(Src &s) {
  ViewUpdate u;
  const size_t n = s.count(3, 30);
  for (size_t i = 0; i < n; ++i) {
    ViewPrimitive p{.id = Make<UUID>::make(s), .payload = payload(s), .file_name = s.text(8), .line_number = static_cast<int>(s.below(1000))};
    if (s.coin()) p.user_defined_name = "name " + std::to_string(s.below(100));
    if (s.chance(1, 100)) p.user_defined_name = std::string(static_cast<size_t>(s.range(1000, 150000)), 'n') + std::to_string(s.below(100));
    u.primitives.push_back(std::move(p));
  }
  return u;
}

void protocol(Src &s) {
  const size_t clients = 1 + s.below(2);
  std::vector<Server> servers(clients);
  std::vector<std::unique_ptr<ViewClient>> under;
  static const std::vector<std::string> BASES{"https://api.resim.ai", "http://localhost:8080", "x", "https://a.b/c d/{}"};
  // Mostly good answers, or mostly bad ones
  const unsigned good = static_cast<unsigned>(s.range(1, 6));
  for (size_t i = 0; i < clients; ++i) {
    servers[i].base = s.pick(BASES) + (i == 0 ? "" : "/second");
    const size_t answers = s.count(14, 200);
    for (size_t k = 0; k < answers; ++k) {
      static const std::vector<long> CODES{200, 202, 0, 400, 403, 404, 500, 503, -1, 2010};
      const size_t kind = s.weighted({good, 2, 2});
      servers[i].plan.push_back({kind == 0 ? 201 : kind == 1 ? 401 : s.pick(CODES), text_of(s, true), text_of(s, false)});
      s.note("server ", i, " answer ", k, " ", servers[i].plan.back().code);
    }
    const size_t failing = s.chance(1, 3) ? 1 + s.below(2) : 0;
    for (size_t k = 0; k < failing; ++k) servers[i].tokens->failing.insert(static_cast<int>(s.below(10)));
    under.push_back(std::make_unique<ViewClient>(servers[i].base));
    under.back()->set_auth_client(std::make_unique<Auth>(servers[i].tokens));
  }
  const size_t sends = 1 + s.count(7, 120);
  size_t good_sends = 0;
  size_t unusual = 0;
  for (size_t k = 0; k < sends; ++k) {
    const size_t i = s.below(clients);
    Server &server = servers[i];
    const ViewUpdate u = update_of(s);
    s.note("send ", k, " of ", u.primitives.size(), " objects by ", i);
    server.update = &u;
    server.phase = server.session.empty() ? SESSION : UPDATE;
    server.tokens->failed = false;
    server.log.clear();
    const size_t before = server.at;
    cpr::transport() = [&](const cpr::Request &r) { return server.answer(r); };
    bool threw = false;
    resim::Status got;
    Told told;
    try {
      got = under[i]->send_view_update(u);
    } catch (const AssertException &) {
      threw = true;
    }
    s.note(server.log);
    PBT_CHECK(s, server.problem.empty(), "send ", k, ": ", server.problem);
    PBT_CHECK(s, threw == server.tokens->failed, threw ? "an exception without reason" : "a failure to get a token was swallowed", " in send ", k);
    if (threw) {
      if (server.phase != SESSION && server.phase != SESSION_AGAIN) server.exact = false;
      ++unusual;
    } else {
      PBT_CHECK(s, server.phase == GOOD || server.phase == BAD, "send ", k, " ended early");
      PBT_CHECK(s, got.ok() == (server.phase == GOOD), "send ", k, got.ok() ? " reports success" : " reports failure");
      if (got.ok()) PBT_CHECK(s, told.text.find(server.page) != std::string::npos, "send ", k, ": the user is not told of ", server.page, " but: ", told.text);
      good_sends += got.ok() ? 1 : 0;
      unusual += !got.ok() || server.at - before > 1 ? 1 : 0;
    }
    PBT_CHECK(s, threw || server.tokens->refreshes == server.due_refreshes, "the token was refreshed ", server.tokens->refreshes, " times instead of ", server.due_refreshes);
    server.due_refreshes = server.tokens->refreshes;
  }
  cpr::transport() = nullptr;
  if (good_sends > 0 && unusual > 0) s.nontrivial();
  // Without an address nothing is sent
  if (s.chance(1, 8)) {
    ViewClient nowhere{""};
    int requests = 0;
    cpr::transport() = [&](const cpr::Request &) {
      ++requests;
      return cpr::Response{201, "x"};
    };
    PBT_CHECK(s, pbt::throws<AssertException>([&] { nowhere.send_view_update(update_of(s)); }), "an empty address is accepted");
    PBT_CHECK(s, requests == 0, "a request was sent to an empty address");
    cpr::transport() = nullptr;
  }
}

// Sessions of very many updates
void long_session(Src &s) {
  const size_t sends = s.chance(1, 6) ? static_cast<size_t>(s.range(65000, 70000)) : static_cast<size_t>(s.range(200, 1400));
  const size_t renew = static_cast<size_t>(s.range(3, 300));  // The token is refused so often
  s.note(sends, " sends, the token is refused before every ", renew, "th");
  s.nontrivial();
  auto tokens = std::make_shared<Tokens>();
  ViewClient client{"http://x"};
  client.set_auth_client(std::make_unique<Auth>(tokens));
  size_t sessions = 0;
  size_t delivered = 0;
  std::string last;
  int accepted = 0;
  cpr::transport() = [&](const cpr::Request &r) -> cpr::Response {
    if (r.bearer.token != "token-" + std::to_string(accepted)) return {401, ""};
    if (r.url.str() == "http://x/view/sessions") {
      ++sessions;
      return {201, "\"sid\"\n"};
    }
    last = r.url.str();
    ++delivered;
    return {201, "{}"};
  };
  for (size_t k = 0; k < sends; ++k) {
    if (k % renew == renew - 1) ++accepted;
    const auto st = client.send_view_update(ViewUpdate{});
    PBT_CHECK(s, st.ok(), "send ", k, " failed: ", st.what());
    PBT_CHECK(s, sessions == 1 && delivered == k + 1, "after send ", k, ": ", sessions, " sessions and ", delivered, " updates");
    PBT_CHECK(s, last == "http://x/view/sessions/sid/updates/" + std::to_string(k), "update ", k, " was sent to ", last);
  }
  cpr::transport() = nullptr;
}

// With its own authentication: tokens that expire at any time
void end_to_end(Src &s) {
  // A home of its own for each process
  const char *scratch = getenv("PBT_SCRATCH");
  PBT_CHECK(s, scratch != nullptr && fs::is_directory(scratch), "no scratch directory");
  const fs::path home = fs::path{scratch} / ("home-" + std::to_string(getpid()));
  fs::create_directories(home);
  setenv("HOME", home.c_str(), 1);
  const fs::path token_path = home / ".resim" / "view_token";
  fs::remove_all(home / ".resim");
  int issued = 0;
  std::string valid = "none";
  std::vector<std::string> numbers;
  int expire_every = static_cast<int>(s.range(1, 6));
  int count = 0;
  bool unknown = false;
  cpr::transport() = [&](const cpr::Request &r) -> cpr::Response {
    const std::string &u = r.url.str();
    if (u.find("/oauth/device/code") != std::string::npos) return {200, R"({"device_code": "d", "expires_in": 100, "interval": 0, "verification_uri_complete": "v"})"};
    if (u.find("/oauth/token") != std::string::npos) {
      valid = "jwt-" + std::to_string(issued++);
      return {200, "{\"access_token\": \"" + valid + "\"}"};
    }
    if (r.bearer.token != valid) return {401, ""};
    if (u == "https://api.resim.ai/view/sessions") return {201, "\"sid\"\n"};
    const std::string prefix = "https://api.resim.ai/view/sessions/sid/updates/";
    if (u.rfind(prefix, 0) == 0) {
      numbers.push_back(u.substr(prefix.size()));
      return {201, "{}"};
    }
    unknown = true;
    return {404, ""};
  };
  const size_t sends = 1 + s.count(8, 40);
  size_t good = 0;
  ViewClient client{"https://api.resim.ai"};
  for (size_t k = 0; k < sends; ++k) {
    if (++count % expire_every == 0) {
      valid = "expired";
      s.note("expiry before send ", k);
      if (k > 0) s.nontrivial();
    }
    const ViewUpdate u = update_of(s);
    const auto st = client.send_view_update(u);
    PBT_CHECK(s, st.ok(), "send ", k, " failed although a new token was available: ", st.what());
    ++good;
    PBT_CHECK(s, !unknown, "a request to an unknown address");
    PBT_CHECK(s, numbers.size() == good && numbers.back() == std::to_string(k), "update ", k, " was not delivered once under its number");
    PBT_CHECK(s, fs::exists(token_path), "the token was not stored");
  }
  cpr::transport() = nullptr;
  // A second client continues with the stored token
  PBT_CHECK(s, ViewClient::determine_token_root("/some/where") == fs::path{"/some/where/.resim/view_token"}, "token path");
  fs::remove_all(home / ".resim");
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C23",
      "histories of 1-7 sends by one or two clients against a scripted server with up to 14 planned answers (201, 401, others "
      "including no answer) and failing token requests, each request checked by a state machine of the session protocol; sessions of "
      "up to 70000 updates; and sends with the built-in authentication while tokens expire; non-trivial: a history with a success and something else",
      {
          {"protocol", protocol, 20000, 600000},
          {"long_session", long_session, 8, 200},
          {"end_to_end", end_to_end, 2000, 50000},
      },
      {"the HTTP library is replaced by an in-process stand-in, so its own transport behaviour is not covered",
       "the server never answers with an empty session id"}};
}
