// Harness API.  In the solver run these are implemented by /verif/engine
// (psisym); in the replay run by lib/native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_fail(const char* msg) __attribute__((noreturn));
void sym_reach(const char* label);
void sym_note(const char* label, uint64_t v);
uint64_t sym_concretize(uint64_t v);
bool sym_is_symbolic(uint64_t v);
uint64_t sym_select(bool c, uint64_t a, uint64_t b);
long sym_param(const char* name, long dflt);
void sym_end_path() __attribute__((noreturn));
bool sym_in_engine();
unsigned long sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(unsigned long);
unsigned long sym_thread_self();
void sym_sched_point();
void sym_wait_on(uint64_t key);
void sym_wait_on_timed(uint64_t key);
void sym_notify(uint64_t key);
void sym_print(const char*);
}
// Symbolic values are always drawn through these.
template <class T> inline T sym(const char* name) {
  T v;
  sym_bytes(&v, sizeof v, name);
  return v;
}
inline bool symBool(const char* name) {
  unsigned char b;
  sym_bytes(&b, 1, name);
  sym_assume(b < 2);
  return b == 1;
}
// unsigned in [0,n)
inline unsigned symBelow(unsigned n, const char* name) {
  unsigned char b;
  sym_bytes(&b, 1, name);
  sym_assume(b < n);
  return b;
}
// as symBelow but one path per value
inline unsigned choose(unsigned n, const char* name) { return (unsigned)sym_concretize(symBelow(n, name)); }
inline uint64_t symRange(uint64_t lo, uint64_t hi, const char* name) {
  uint64_t v;
  sym_bytes(&v, 8, name);
  sym_assume((v >= lo) & (v <= hi));
  return v;
}
inline unsigned chooseRange(unsigned lo, unsigned hi, const char* name) { return lo + choose(hi - lo + 1, name); }
// string of concrete length n with symbolic bytes
inline std::string symStr(size_t n, const char* name) {
  std::string s(n, '\0');
  if (n) sym_bytes(&s[0], n, name);
  return s;
}
inline std::vector<uint8_t> symVec(size_t n, const char* name) {
  std::vector<uint8_t> s(n);
  if (n) sym_bytes(s.data(), n, name);
  return s;
}
#define CHECK_THAT(c, msg) sym_assert((c), msg)
// run f, report whether it threw a std::exception
template <class F> inline bool throws(F&& f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
