// Ideal group in place of the FourQ library: a point is (base, sum of the scalars applied to it);
// a scalar counts by its first two bytes, and inverting needs the Montgomery form.
#pragma once
#include <cstdint>
#include <cstring>
typedef uint64_t digit_t;
typedef digit_t felm_t[2];
typedef felm_t f2elm_t[2];
typedef struct { f2elm_t x; f2elm_t y; } point_affine;
typedef point_affine point_t[1];
typedef enum { ECCRYPTO_SUCCESS, ECCRYPTO_ERROR, ECCRYPTO_ERROR_UNKNOWN, ECCRYPTO_ERROR_INVALID_PARAMETER } ECCRYPTO_STATUS;
inline void mod1271(felm_t a) { a[1] &= ~(1ull << 63); }
// the base must be reduced
inline ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_t p) {
  memset(p, 0, sizeof(point_t));
  memcpy(p[0].x, r, 32);
  return ECCRYPTO_SUCCESS;
}
inline bool ecc_mul(point_t P, digit_t* k, point_t Q, bool) {
  point_affine t = P[0];
  t.y[0][0] = (uint16_t)(t.y[0][0] + k[0]);
  Q[0] = t;
  return true;
}
inline void encode(point_t P, unsigned char* o) {
  memcpy(o, P[0].x, 16);
  memcpy(o + 16, (unsigned char*)P[0].x + 20, 8);
  memset(o + 24, 0, 6);
  memcpy(o + 30, P[0].y, 2);
}
inline ECCRYPTO_STATUS decode(const unsigned char* in, point_t P) {
  for (int i = 24; i < 30; i++) if (in[i]) return ECCRYPTO_ERROR_INVALID_PARAMETER;
  memset(P, 0, sizeof(point_t));
  memcpy(P[0].x, in, 16);
  memcpy((unsigned char*)P[0].x + 20, in + 16, 8);
  memcpy(P[0].y, in + 30, 2);
  return ECCRYPTO_SUCCESS;
}
// Montgomery form: the scalar plus 0x1234
inline void shimScalar(const digit_t* a, digit_t* r, uint16_t low) {
  digit_t t[4] = {(a[0] & ~0xffffull) | low, a[1], a[2], a[3]};
  memcpy(r, t, 32);
}
inline void to_Montgomery(const digit_t* a, digit_t* r) { shimScalar(a, r, (uint16_t)(a[0] + 0x1234)); }
inline void from_Montgomery(const digit_t* a, digit_t* r) { shimScalar(a, r, (uint16_t)(a[0] - 0x1234)); }
inline void Montgomery_inversion_mod_order(const digit_t* a, digit_t* r) { shimScalar(a, r, (uint16_t)(0x2468 - a[0])); }
