// Ideal hash / PRG / randomness used in place of yacl's cryptography.
#pragma once
#include <array>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "sym.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
namespace symcrypto {
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t& counter() { static uint64_t c = 1; return c; }
inline uint64_t nextRand() { return mix64(counter()++ * 0x10001); }
struct Ent { int dom; std::string in; };
inline std::vector<Ent>& table() { static auto* t = new std::vector<Ent>(); return *t; }
// Collision-free by construction.  Inputs shorter than the digest are packed
// injectively (bytes, zero padding, length in the last byte) unless
// hash_table=1; others go through a table whose answers are pseudo-random
// constants: equal inputs get equal digests, different inputs different ones.
inline void ideal(int dom, yacl::ByteContainerView in, uint8_t* out, size_t n) {
  if (sym_param("hash_table", 0) == 0 && in.size() + 1 <= n && in.size() < 128) {
    memset(out, 0, n);
    if (in.size()) memcpy(out, in.data(), in.size());
    out[n - 1] = (uint8_t)(in.size() + (dom << 7));
    return;
  }
  auto& t = table();
  size_t id = t.size();
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].dom == dom && t[i].in.size() == in.size() && (in.size() == 0 || memcmp(t[i].in.data(), in.data(), in.size()) == 0)) { id = i; break; }
  if (id == t.size()) t.push_back({dom, std::string((const char*)in.data(), in.size())});
  long salt = sym_param("hash_salt", 0);
  for (size_t i = 0; i < n; i++) out[i] = (uint8_t)(mix64(id * 1315423911u + (i / 8) * 7919 + 77 + salt * 104729) >> (8 * (i % 8)));
  out[n - 1] |= 0x80;  // disjoint from packed digests of domain 0
}
}
