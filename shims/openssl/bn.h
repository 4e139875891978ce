// Numbers are 32 bytes, big endian.  Only what the repository calls is there; inverses go with
// the ideal group of openssl/ec.h, in which multiplying a point by s adds s's last two bytes.
#pragma once
#include <cstdint>
#include <cstring>
struct BIGNUM { uint8_t b[32] = {}; };
struct BN_CTX { int x = 0; };
inline BIGNUM* BN_new() { return new BIGNUM; }
inline void BN_clear_free(BIGNUM* p) { delete p; }
inline void BN_free(BIGNUM* p) { delete p; }
inline BN_CTX* BN_CTX_new() { return new BN_CTX; }
inline void BN_CTX_free(BN_CTX* p) { delete p; }
inline BIGNUM* BN_bin2bn(const uint8_t* s, int n, BIGNUM* r) {
  if (n > 32) return nullptr;
  memset(r->b, 0, 32);
  if (n > 0) memcpy(r->b + 32 - n, s, n);
  return r;
}
inline int BN_bn2binpad(const BIGNUM* a, uint8_t* to, int n) {
  if (n < 32) return -1;
  memset(to, 0, n);
  memcpy(to + n - 32, a->b, 32);
  return n;
}
// moduli are above every number in use
inline int BN_nnmod(BIGNUM* r, const BIGNUM* m, const BIGNUM*, BN_CTX*) { memcpy(r->b, m->b, 32); return 1; }
inline BIGNUM* BN_mod_inverse(BIGNUM* r, const BIGNUM* a, const BIGNUM*, BN_CTX*) {
  memcpy(r->b, a->b, 32);
  uint16_t k = (uint16_t)-((a->b[30] << 8) | a->b[31]);
  r->b[30] = (uint8_t)(k >> 8);
  r->b[31] = (uint8_t)k;
  return r;
}
