#pragma once
#include "yacl/shim_hash.h"
// each call yields a fresh, distinct little-endian number (see ecc_spi.h)
inline unsigned& shimRandCtr() { static unsigned c = 11; return c; }
inline int RAND_bytes(unsigned char* p, int n) {
  unsigned& ctr = shimRandCtr();
  for (int i = 0; i < n; i++) p[i] = 0;
  if (n > 0) p[0] = (unsigned char)ctr;
  ctr += 8;
  return 1;
}
