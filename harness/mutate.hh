// Structured and byte-level damage to messages.
#pragma once

#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>

#include "gen.hh"

namespace gen {
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
using google::protobuf::Reflection;

inline double strange_double(Src &s) {
  const double inf = std::numeric_limits<double>::infinity();
  return s.coin() ? s.symmetric(10)
                  : s.pick(std::vector<double>{0., -0., inf, -inf, std::numeric_limits<double>::quiet_NaN(), 1e308, -1e308, 1e155, 5e-324, M_PI,
                                               2 * M_PI, 1e-200, -1., 1e19});
}
inline int64_t strange_int(Src &s) {
  return s.coin() ? s.range(-5, 5)
                  : s.pick(std::vector<int64_t>{std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), 9223372036LL, 9223372037LL,
                                                -9223372036LL, -9223372037LL, 999'999'999, 1'000'000'000, -1, 2147483647, -2147483648LL});
}
inline std::string strange_string(Src &s, const std::string &now, bool valid_ids) {
  std::string v = now;
  if (valid_ids) {  // Another id
    if (v.size() != 36 || s.chance(1, 4)) return uuid(s).to_string();
    if (s.chance(1, 6)) return "00000000-0000-0000-0000-000000000000";
    size_t i = s.below(36);
    if (v[i] == '-') ++i;
    v[i] = v[i] == '7' ? '8' : '7';
    return v;
  }
  const auto at = [&] { return v.empty() ? size_t{0} : s.below(v.size()); };
  switch (s.below(9)) {
    case 0:
      return "";
    case 1:
      if (!v.empty()) v.erase(at(), 1);
      return v;
    case 2:
      v.insert(at(), 1, static_cast<char>(s.below(128)));
      return v;
    case 3:
      if (!v.empty()) v[at()] = s.pick(std::vector<char>{'g', '-', ' ', '0', 'F', 'f', 'G', '{', '\0', '\x7f', 'x'});
      return v;
    case 4:
      return s.text(50);
    case 5:
      return v + s.pick(std::vector<std::string>{" ", "\n", std::string(1, '\0'), std::string("\0junk", 5), "0", v});
    case 6:
      return v.substr(0, at());
    case 7:
      return "{" + v + "}";
    default:
      return "00000000-0000-0000-0000-000000000000";
  }
}

struct Slot {
  Message *m;
  const FieldDescriptor *f;
};
inline void slots(Message *m, std::vector<Slot> &out) {
  const auto *d = m->GetDescriptor();
  const Reflection *r = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const FieldDescriptor *f = d->field(i);
    out.push_back({m, f});
    if (f->cpp_type() != FieldDescriptor::CPPTYPE_MESSAGE) continue;
    if (f->is_repeated()) {
      for (int k = 0; k < r->FieldSize(*m, f); ++k) slots(r->MutableRepeatedMessage(m, f, k), out);
    } else if (r->HasField(*m, f)) {
      slots(r->MutableMessage(m, f), out);
    }
  }
}

inline void set_scalar(Src &s, Message *m, const FieldDescriptor *f, int index, bool add, bool valid_ids) {
  const Reflection *r = m->GetReflection();
  const bool rep = f->is_repeated();
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_DOUBLE: {
      const double v = strange_double(s);
      if (!rep) r->SetDouble(m, f, v);
      else if (add) r->AddDouble(m, f, v);
      else r->SetRepeatedDouble(m, f, index, v);
      return;
    }
    case FieldDescriptor::CPPTYPE_INT64:
      if (!rep) r->SetInt64(m, f, strange_int(s));
      return;
    case FieldDescriptor::CPPTYPE_INT32:
      if (!rep) r->SetInt32(m, f, static_cast<int32_t>(strange_int(s)));
      return;
    case FieldDescriptor::CPPTYPE_STRING:
      if (!rep) r->SetString(m, f, strange_string(s, r->GetString(*m, f), valid_ids));
      return;
    default:
      return;
  }
}

// One structured change somewhere in the message. With valid_ids, ids are replaced by other ids and messages stay present.
inline void mutate(Src &s, Message *root, bool valid_ids = false) {
  std::vector<Slot> all;
  slots(root, all);
  if (all.empty()) return;
  const Slot slot = all[s.below(all.size())];
  Message *m = slot.m;
  const FieldDescriptor *f = slot.f;
  const Reflection *r = m->GetReflection();
  const bool message = f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE;
  s.note("mutated ", f->full_name());
  if (!f->is_repeated()) {
    if (message) {
      if (!valid_ids && s.coin()) {
        r->ClearField(m, f);
      } else {
        r->MutableMessage(m, f);
      }
    } else if (!valid_ids && s.chance(1, 6)) {
      r->ClearField(m, f);
    } else {
      set_scalar(s, m, f, 0, false, valid_ids);
    }
    return;
  }
  const int n = r->FieldSize(*m, f);
  switch (s.below(5)) {
    case 0:
      if (n > 0) r->RemoveLast(m, f);
      return;
    case 1:
      if (message) {
        Message *added = r->AddMessage(m, f);
        if (n > 0 && (valid_ids || s.coin())) added->CopyFrom(r->GetRepeatedMessage(*m, f, static_cast<int>(s.below(n))));
      } else {
        set_scalar(s, m, f, 0, true, valid_ids);
      }
      return;
    case 2:
      if (n > 1) r->SwapElements(m, f, static_cast<int>(s.below(n)), static_cast<int>(s.below(n)));
      return;
    case 3:
      if (s.chance(1, 3)) r->ClearField(m, f);
      return;
    default:
      if (n > 0 && !message) set_scalar(s, m, f, static_cast<int>(s.below(n)), false, valid_ids);
      return;
  }
}

inline std::string damage(Src &s, std::string bytes) {
  const size_t n = 1 + s.below(4);
  for (size_t i = 0; i < n; ++i) {
    const size_t at = bytes.empty() ? 0 : s.below(bytes.size());
    switch (s.below(5)) {
      case 0:
        if (!bytes.empty()) bytes[at] = static_cast<char>(bytes[at] ^ (1 << s.below(8)));
        break;
      case 1:
        if (!bytes.empty()) bytes.erase(at, 1 + s.below(8));
        break;
      case 2:
        bytes.insert(at, s.text(6, true));
        break;
      case 3:
        bytes.resize(at);
        break;
      default: {
        const std::string piece = bytes.substr(at, 1 + s.below(40));
        bytes.insert(bytes.empty() ? 0 : s.below(bytes.size() + 1), piece);
      }
    }
  }
  return bytes;
}
}  // namespace gen
