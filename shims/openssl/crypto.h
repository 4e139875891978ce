#pragma once
#include <cstddef>
#include <cstring>
inline void OPENSSL_cleanse(void* p, size_t n) { if (n) memset(p, 0, n); }
