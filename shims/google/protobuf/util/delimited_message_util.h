#pragma once
#include "google/protobuf/io/zero_copy_stream_impl.h"
namespace google { namespace protobuf { namespace util {
inline bool SerializeDelimitedToOstream(const Message& m, std::ostream* o) { std::string s = m.SerializeAsString(); uint64_t n = s.size(); o->write((const char*)&n, 8); o->write(s.data(), (long)n); return o->good(); }
inline bool ParseDelimitedFromZeroCopyStream(Message* m, io::ZeroCopyInputStream* in, bool* eof) {
  uint64_t n;
  if (!in->take((char*)&n, 8)) { if (eof) *eof = true; return false; }
  std::string s(n, '\0');
  if (n && !in->take(&s[0], n)) return false;
  return m->ParseFromString(s);
}
}}}
