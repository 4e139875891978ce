#pragma once
extern "C" long sym_param(const char* name, long dflt);
namespace yacl {
inline bool hasAVX2() { return sym_param("avx2", 0) != 0; }
inline bool hasAVX512ifma() { return sym_param("avx512", 0) != 0; }
inline bool hasAESni() { return false; }
inline bool hasBMI2() { return false; }
}
