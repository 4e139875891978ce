#pragma once
#include <cstdint>
namespace absl {
struct Duration { int64_t ms = 0; }; struct Time { int64_t ms = 0; };
inline Duration Milliseconds(int64_t n) { return {n}; }
inline Duration Seconds(int64_t n) { return {n * 1000}; }
inline int64_t ToUnixMillis(Time t) { return t.ms; }
inline int64_t ToInt64Milliseconds(Duration d) { return d.ms; }
inline Duration operator-(Time a, Time b) { return {a.ms - b.ms}; }
inline Time Now() { static int64_t t = 1000; return {t++}; }
inline void SleepFor(Duration) {}
}
