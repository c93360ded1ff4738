// C13: what is viewed arrives as it was viewed.
// @quick_scale: 6
#include "mutate.hh"
#include "primitives.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"

namespace {
using namespace gen;
namespace vp = resim::visualization::proto;

std::string utf8(Src &s) {
  static const std::vector<std::string> PIECES{"a", "B", " ", "\"", "\n", "/", "\xc3\xa9", "\xe2\x86\x92", "\xf0\x9f\x9a\x97", "0", "_", ".", "\\", "{}", "%s", std::string(1, '\0')};
  std::string out;
  const size_t n = s.count(12, 600);
  for (size_t i = 0; i < n; ++i) out += s.pick(PIECES);
  return out;
}

ViewPrimitive primitive(Src &s) {
  ViewPrimitive p{.id = Make<UUID>::make(s), .payload = payload(s), .file_name = "", .line_number = 0};
  if (s.coin()) p.user_defined_name = utf8(s);
  p.file_name = utf8(s);
  p.line_number = s.coin() ? static_cast<int>(s.range(0, 5000))
                           : s.pick(std::vector<int>{0, 1, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
  return p;
}

void one(Src &s) {
  const ViewPrimitive p = primitive(s);
  s.note(show(p));
  s.label("kind " + std::to_string(p.payload.index()));
  if (p.user_defined_name.has_value() && !p.file_name.empty()) s.nontrivial();
  vp::ViewPrimitive m;
  pack(p, &m);
  std::string d = differ(p, vp::unpack(m));
  PBT_CHECK(s, d.empty(), "unpacked primitive differs: ", d);
  const std::string bytes = m.SerializeAsString();
  vp::ViewPrimitive received;
  PBT_CHECK(s, received.ParseFromString(bytes), "the serialized message does not parse");
  d = differ(p, vp::unpack(received));
  PBT_CHECK(s, d.empty(), "primitive unpacked from bytes differs: ", d);
  const auto sv = vp::detail::unpack(received);
  PBT_CHECK(s, sv.ok(), "a valid primitive has a bad status");
  d = differ(p, sv.value());
  PBT_CHECK(s, d.empty(), "primitive in the status value differs: ", d);
  vp::ViewPrimitive used;
  pack(primitive(s), &used);
  pack(p, &used);
  PBT_CHECK(s, used.SerializeAsString() == bytes, "packing into a used message leaves something of the former primitive behind");
  // Without a payload
  vp::ViewPrimitive unset = received;
  unset.clear_payload();
  PBT_CHECK(s, !vp::detail::unpack(unset).ok(), "a primitive without payload has a good status");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { vp::unpack(unset); }), "a primitive without payload is unpacked");
  PBT_CHECK(s, pbt::throws<AssertException>([&] { pack(p, static_cast<vp::ViewPrimitive *>(nullptr)); }), "packing into a null message is not refused");
}

ViewUpdate update(Src &s) {
  ViewUpdate u;
  const size_t n = s.count(6, 150);
  for (size_t i = 0; i < n; ++i) u.primitives.push_back(primitive(s));
  return u;
}

void many(Src &s) {
  ViewUpdate u = update(s);
  for (const auto &p : u.primitives) s.note(show(p));
  if (s.chance(1, 400)) {  // Thousands of objects
    const size_t n = static_cast<size_t>(s.range(1000, 5000));
    s.note("and ", n, " frames");
    for (size_t i = 0; i < n; ++i) {
      u.primitives.push_back(ViewPrimitive{.id = resim::UUID::new_uuid(), .payload = Frame::new_frame(), .file_name = "f", .line_number = static_cast<int>(i)});
    }
    s.label("thousands");
  }
  if (u.primitives.size() > 1) s.nontrivial();
  vp::ViewUpdate m;
  if (s.coin()) pack(update(s), &m);
  pack(u, &m);
  PBT_CHECK(s, m.primitive_size() == static_cast<int>(u.primitives.size()), "number of primitives in the message");
  const std::string bytes = m.SerializeAsString();
  vp::ViewUpdate received;
  PBT_CHECK(s, received.ParseFromString(bytes), "the serialized update does not parse");
  const ViewUpdate got = vp::unpack(received);
  PBT_CHECK(s, got.primitives.size() == u.primitives.size(), "number of primitives changed to ", got.primitives.size());
  for (size_t i = 0; i < u.primitives.size(); ++i) {
    const std::string d = differ(u.primitives[i], got.primitives[i]);
    PBT_CHECK(s, d.empty(), "primitive ", i, " differs: ", d);
  }
  PBT_CHECK(s, pbt::throws<AssertException>([&] { pack(u, static_cast<vp::ViewUpdate *>(nullptr)); }), "packing into a null message is not refused");
  // One primitive without payload makes the update unusable
  if (received.primitive_size() > 0) {
    received.mutable_primitive(static_cast<int>(s.below(received.primitive_size())))->clear_payload();
    PBT_CHECK(s, pbt::throws<AssertException>([&] { vp::unpack(received); }), "an update with an empty primitive is unpacked");
  }
}

void malformed(Src &s) {
  vp::ViewUpdate m;
  pack(update(s), &m);
  const std::string before = m.SerializeAsString();
  if (s.coin()) {
    const size_t n = 1 + s.below(4);
    for (size_t i = 0; i < n; ++i) mutate(s, &m, s.coin());
  } else if (!m.ParseFromString(damage(s, before))) {
    return;
  }
  if (m.SerializeAsString() != before) s.nontrivial();
  s.note(m.ShortDebugString());
  try {
    const ViewUpdate got = vp::unpack(m);
    PBT_CHECK(s, got.primitives.size() == static_cast<size_t>(m.primitive_size()), "primitives lost");
    for (int i = 0; i < m.primitive_size(); ++i) {
      const auto &p = m.primitive(i);
      PBT_CHECK(s, p.payload_case() != vp::ViewPrimitive::PAYLOAD_NOT_SET, "a primitive without payload is accepted");
      PBT_CHECK(s, got.primitives[i].file_name == p.file_name() && got.primitives[i].line_number == p.line_number(), "file or line lost");
    }
    vp::ViewUpdate again;
    pack(got, &again);
    s.label("accepted");
  } catch (const AssertException &) {
    s.label("refused");
  }
}
}  // namespace

pbt::Program pbt::program() {
  return {
      "C13",
      "view primitives of all seven kinds with any id, name (absent, empty, UTF-8, quotes), file and line over the whole "
      "int range, and updates of 0-5 of them, packed into fresh and used messages, through bytes and back; primitives "
      "without payload; mutated and damaged updates; non-trivial: named and located / several primitives / changed message",
      {
          {"primitive", one, 20000, 800000},
          {"update", many, 8000, 300000},
          {"malformed", malformed, 15000, 500000},
      },
      {"an empty name and no name are the same thing in a message", "names and files are UTF-8, as the message format requires"}};
}
