#include "sym.h"
#include "psi/algorithm/spiral/util.h"
using namespace psi::spiral;
namespace {
unsigned bit(const std::vector<uint8_t>& v, size_t off, size_t n, size_t i) {  // i-th bit of the stream, most significant first
  return i / 8 >= n ? 0u : (v[off + i / 8] >> (7 - i % 8)) & 1u;
}
}
extern "C" int h_pack() {
  size_t logt = sym_param("logt", 8), max = sym_param("max", 5);
  size_t n = 1 + choose(max, "n"), off = choose(3, "off");
  auto raw = symVec(off + n + 1, "b");
  auto c = util::ConvertBytesToCoeffs(logt, off, n, raw);
  CHECK_THAT(c.size() == (8 * n + logt - 1) / logt, "coefficient count");
  for (size_t k = 0; k < c.size(); k++) {
    CHECK_THAT((c[k] >> logt) == 0, "coefficient exceeds the plaintext width");
    uint64_t e = 0;
    for (size_t j = 0; j < logt; j++) e = e << 1 | bit(raw, off, n, k * logt + j);
    CHECK_THAT(c[k] == e, "coefficient is not the bits at its position");
  }
  auto back = util::ConvertCoeffsToBytes(c, logt);
  std::vector<uint64_t> copy = c;
  auto back2 = util::ConvertCoeffsToBytes(absl::MakeSpan(copy), logt);
  CHECK_THAT(back.size() >= n && back2.size() == back.size(), "unpacked length");
  for (size_t i = 0; i < n; i++) {
    CHECK_THAT(back[i] == raw[off + i], "byte changed by packing and unpacking");
    CHECK_THAT(back2[i] == raw[off + i], "byte changed by packing and unpacking (span)");
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_pack8() {
  size_t logt = sym_param("logt", 8), max = sym_param("max", 5);
  size_t n = 1 + choose(max, "n"), off = choose(3, "off");
  auto raw = symVec(off + n + 1, "b");
  auto c = util::ConvertBytesToU8Coeffs(logt, off, n, raw);
  auto w = util::ConvertBytesToCoeffs(logt, off, n, raw);
  CHECK_THAT(c.size() == w.size(), "coefficient count");
  for (size_t k = 0; k < c.size(); k++) CHECK_THAT(c[k] == w[k], "byte-wide coefficient differs");
  sym_reach("end");
  return 0;
}
