#pragma once
#include "google/protobuf/message.h"
namespace google { namespace protobuf { namespace util {
class MessageDifferencer { public: static bool Equals(const Message& a, const Message& b) { return a.PblEquals(b); } static bool Equivalent(const Message& a, const Message& b) { return a.PblEquals(b); } };
}}}
