// A stand-in for the cpr HTTP library: every request goes to a scripted,
// in-process transport and nothing reaches a network.
#pragma once

#include <array>
#include <chrono>
#include <cstdint>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

namespace cpr {

struct Url {
  std::string url;
  Url() = default;
  Url(std::string u) : url{std::move(u)} {}
  Url(const char *u) : url{u} {}
  const std::string &str() const { return url; }
};
struct Bearer {
  std::string token;
  Bearer() = default;
  Bearer(std::string t) : token{std::move(t)} {}
};
struct Body {
  std::string data;
  Body() = default;
  Body(std::string d) : data{std::move(d)} {}
  Body(const char *d) : data{d} {}
};
using Header = std::map<std::string, std::string>;
struct Timeout {
  long ms = 0;
};

struct Response {
  long status_code = 0;
  std::string text;
};

struct Request {
  std::string method;
  Url url;
  Header header;
  Bearer bearer;
  Body body;
  int bearers = 0;
  int bodies = 0;
};

inline std::function<Response(const Request &)> &transport() {
  static std::function<Response(const Request &)> t;
  return t;
}

namespace detail {
inline void set(Request &r, const Url &x) { r.url = x; }
inline void set(Request &r, const Header &x) { r.header.insert(x.begin(), x.end()); }
inline void set(Request &r, const Bearer &x) {
  r.bearer = x;
  ++r.bearers;
}
inline void set(Request &r, const Body &x) {
  r.body = x;
  ++r.bodies;
}
inline void set(Request &, const Timeout &) {}
}  // namespace detail

template <typename... Ts>
Response request(const char *method, Ts &&...parts) {
  Request r;
  r.method = method;
  (detail::set(r, parts), ...);
  return transport() ? transport()(r) : Response{};
}
template <typename... Ts>
Response Post(Ts &&...parts) {
  return request("POST", std::forward<Ts>(parts)...);
}
template <typename... Ts>
Response Get(Ts &&...parts) {
  return request("GET", std::forward<Ts>(parts)...);
}
template <typename... Ts>
Response Put(Ts &&...parts) {
  return request("PUT", std::forward<Ts>(parts)...);
}
template <typename... Ts>
Response Patch(Ts &&...parts) {
  return request("PATCH", std::forward<Ts>(parts)...);
}
template <typename... Ts>
Response Delete(Ts &&...parts) {
  return request("DELETE", std::forward<Ts>(parts)...);
}

// The builder interface, should the code under test move to it
class Session {
 public:
  void SetUrl(const Url &x) { r_.url = x; }
  void SetHeader(const Header &x) { r_.header = x; }
  void UpdateHeader(const Header &x) {
    for (const auto &[k, v] : x) r_.header[k] = v;
  }
  void SetBearer(const Bearer &x) {
    r_.bearer = x;
    ++r_.bearers;
  }
  void SetBody(const Body &x) {
    r_.body = x;
    ++r_.bodies;
  }
  template <typename T>
  void SetOption(const T &x) {
    detail::set(r_, x);
  }
  Response Post() {
    r_.method = "POST";
    return transport() ? transport()(r_) : Response{};
  }

 private:
  Request r_;
};

}  // namespace cpr
