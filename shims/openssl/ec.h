// Ideal group: a point is (x coordinate of its base, sum of the scalars applied).  Only numbers
// with an even first byte are coordinates of a point.
#pragma once
#include "openssl/bn.h"
#include "openssl/obj_mac.h"
struct EC_GROUP { int nid; };
struct EC_POINT { uint8_t x[32] = {}; uint16_t k = 0; };
typedef int point_conversion_form_t;
#define POINT_CONVERSION_COMPRESSED 2
inline EC_GROUP* EC_GROUP_new_by_curve_name(int nid) { return new EC_GROUP{nid}; }
inline void EC_GROUP_free(EC_GROUP* g) { delete g; }
inline int EC_GROUP_get_curve(const EC_GROUP*, BIGNUM* p, BIGNUM*, BIGNUM*, BN_CTX*) { memset(p->b, 255, 32); return 1; }
inline int EC_GROUP_get_order(const EC_GROUP*, BIGNUM* n, BN_CTX*) { memset(n->b, 255, 32); return 1; }
inline EC_POINT* EC_POINT_new(const EC_GROUP*) { return new EC_POINT; }
inline void EC_POINT_clear_free(EC_POINT* p) { delete p; }
inline int EC_POINT_set_compressed_coordinates(const EC_GROUP*, EC_POINT* p, const BIGNUM* x, int, BN_CTX*) {
  if (x->b[0] & 1) return 0;
  memcpy(p->x, x->b, 32);
  p->k = 0;
  return 1;
}
inline int EC_POINT_mul(const EC_GROUP*, EC_POINT* r, const BIGNUM* n, const EC_POINT* q, const BIGNUM* m, BN_CTX*) {
  EC_POINT t;
  if (n) { if (q) return 0; t.x[0] = 'G'; q = &t; m = n; }
  memcpy(r->x, q->x, 32);
  r->k = (uint16_t)(q->k + ((m->b[30] << 8) | m->b[31]));
  return 1;
}
// 33 bytes: 2, the ends of the base, zeros, the scalar
inline size_t EC_POINT_point2oct(const EC_GROUP*, const EC_POINT* p, point_conversion_form_t, uint8_t* o, size_t n, BN_CTX*) {
  if (!o) return 33;
  if (n < 33) return 0;
  memset(o, 0, 33);
  o[0] = 2;
  memcpy(o + 1, p->x, 12);
  memcpy(o + 13, p->x + 24, 8);
  o[31] = (uint8_t)(p->k >> 8);
  o[32] = (uint8_t)p->k;
  return 33;
}
inline int EC_POINT_oct2point(const EC_GROUP*, EC_POINT* p, const uint8_t* o, size_t n, BN_CTX*) {
  if (n != 33 || o[0] != 2) return 0;
  memset(p->x, 0, 32);
  memcpy(p->x, o + 1, 12);
  memcpy(p->x + 24, o + 13, 8);
  p->k = (uint16_t)((o[31] << 8) | o[32]);
  return 1;
}
