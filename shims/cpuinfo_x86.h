#pragma once
namespace cpu_features {
struct X86Features { bool pclmulqdq = true, avx2 = true, aes = true; };
struct X86Info { X86Features features; };
inline X86Info GetX86Info() { return {}; }
}
