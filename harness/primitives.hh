// Everything that can be viewed.
#pragma once

#include "protos.hh"
#include "resim/visualization/view_primitive.hh"
#include "resim/visualization/view_update.hh"

namespace gen {
using resim::visualization::ViewPrimitive;
using resim::visualization::ViewUpdate;
using Payload = decltype(ViewPrimitive::payload);

template <size_t i = 0>
Payload payload_of_kind(Src &s, size_t kind) {
  if constexpr (i + 1 < std::variant_size_v<Payload>) {
    if (kind != i) return payload_of_kind<i + 1>(s, kind);
  }
  return Payload{std::in_place_index<i>, Make<std::variant_alternative_t<i, Payload>>::make(s)};
}
inline Payload payload(Src &s) { return payload_of_kind(s, s.below(std::variant_size_v<Payload>)); }

inline std::string differ(const Payload &a, const Payload &b) {
  if (a.index() != b.index()) return "kinds of payload differ: " + std::to_string(a.index()) + " and " + std::to_string(b.index());
  return std::visit(
      [&](const auto &x) { return differ(x, std::get<std::decay_t<decltype(x)>>(b)); },
      a);
}
inline std::string differ(const ViewPrimitive &a, const ViewPrimitive &b) {
  if (a.id.id() != b.id.id()) return "ids differ";
  if (a.file_name != b.file_name) return "file names differ: " + a.file_name + " and " + b.file_name;
  if (a.line_number != b.line_number) return "line numbers differ: " + std::to_string(a.line_number) + " and " + std::to_string(b.line_number);
  // An empty name and no name are the same thing in a message
  if (a.user_defined_name.value_or("") != b.user_defined_name.value_or("")) {
    return "names differ: " + a.user_defined_name.value_or("(none)") + " and " + b.user_defined_name.value_or("(none)");
  }
  if (!a.user_defined_name.has_value() && b.user_defined_name.has_value()) return "a name appeared";
  return differ(a.payload, b.payload);
}
inline std::string show(const Payload &p) {
  return "kind " + std::to_string(p.index()) + ": " + std::visit([](const auto &x) { return show(x); }, p);
}
inline std::string show(const ViewPrimitive &p) {
  return p.id.to_string() + " name=" + (p.user_defined_name ? "'" + *p.user_defined_name + "'" : "none") + " at " + p.file_name + ":" +
         std::to_string(p.line_number) + " " + show(p.payload);
}
}  // namespace gen
