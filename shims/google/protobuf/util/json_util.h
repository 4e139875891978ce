#pragma once
// JSON text stand-in: '{' + wire format, two letters a byte + '}'; a truncated text is rejected
#include "google/protobuf/message.h"
namespace google { namespace protobuf { namespace util {
struct Status { bool ok_ = true; bool ok() const { return ok_; } std::string ToString() const { return ok_ ? "OK" : "error"; } std::string message() const { return ToString(); } };
struct JsonParseOptions { bool ignore_unknown_fields = false, case_insensitive_enum_parsing = false; };
struct JsonPrintOptions { bool add_whitespace = false, always_print_primitive_fields = false, always_print_enums_as_ints = false, preserve_proto_field_names = false; };
inline Status MessageToJsonString(const Message& m, std::string* o, const JsonPrintOptions& = JsonPrintOptions()) {
  *o += "{";
  for (char c : m.SerializeAsString()) { o->push_back('a' + ((unsigned char)c >> 4)); o->push_back('a' + (c & 15)); }
  *o += "}";
  return {};
}
inline Status JsonStringToMessage(std::string_view s, Message* m, const JsonParseOptions& = JsonParseOptions()) {
  if (s.size() < 2 || s.front() != '{' || s.back() != '}') return {false};
  if (s.size() % 2) return {false};
  std::string w;
  for (size_t i = 1; i + 1 < s.size(); i += 2) w.push_back((char)((s[i] - 'a') << 4 | (s[i + 1] - 'a')));
  return {m->ParseFromString(w)};
}
}}}
