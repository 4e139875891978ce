import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
SP = "psi/algorithm/spiral/"
SRC = [SP + f for f in ["util.cc", "params.cc", "gadget.cc", "poly_matrix.cc", "poly_matrix_utils.cc", "discrete_gaussian.cc", "serialize.cc", "spiral_server.cc", "arith/ntt.cc", "arith/ntt_table.cc"]] + ["psi/algorithm/pir_interface/pir_db.cc"]
PR = ["psi/algorithm/spiral/serializable.proto", "psi/algorithm/pir_interface/pir_type.proto"]
DB = r'''
#include "psi/algorithm/pir_interface/pir_db.h"
#include <cstdio>
using psi::pir::RawDatabase;
int main() {
  int bad = 0;
  for (size_t len = 1; len <= 12; len++) for (size_t part = 1; part <= 13; part++) {
    std::vector<std::vector<uint8_t>> db;
    for (int r = 0; r < 2; r++) { std::vector<uint8_t> v; for (size_t i = 0; i < len; i++) v.push_back(r * 50 + i + 1); db.push_back(v); }
    auto parts = RawDatabase(db).Partition(part);
    for (int r = 0; r < 2; r++) {
      std::vector<std::vector<uint8_t>> pieces;
      for (auto& p : parts) pieces.push_back(p.Db()[r]);
      if (RawDatabase::Combine(pieces, len) != db[r]) bad++;
    }
  }
  printf("%d rows changed\n", bad);
  return bad != 0;
}
'''
seed("pir-partition-pad", "P02", [("psi/algorithm/pir_interface/pir_db.cc", "    std::copy(db_[n].begin() + start_col, db_[n].begin() + end_col,\n              chunk.begin());",
  "    std::copy(db_[n].begin() + start_col, db_[n].begin() + end_col,\n              chunk.end() - (end_col - start_col));")],
  ["psi/algorithm/pir_interface/pir_db.cc"], DB, "the last piece of a row wider than a plaintext is padded in front instead of behind", "rows wider than a plaintext whose width is not a multiple of it", protos=PR)
PK = r'''
#include "psi/algorithm/spiral/util.h"
#include <cstdio>
using namespace psi::spiral;
int main() {
  int bad = 0;
  for (size_t logt = 1; logt <= 20; logt++) for (size_t n = 1; n <= 20; n++) for (size_t off = 0; off < 3; off++) {
    std::vector<uint8_t> v; for (size_t i = 0; i < off + n; i++) v.push_back(i * 73 + 41);
    auto c = util::ConvertBytesToCoeffs(logt, off, n, v);
    std::vector<uint64_t> d = c;
    auto b = util::ConvertCoeffsToBytes(c, logt);
    auto e = util::ConvertCoeffsToBytes(absl::MakeSpan(d), logt);
    for (auto x : c) if (x >> logt) bad++;
    for (size_t i = 0; i < n; i++) if (b[i] != v[off + i] || e[i] != v[off + i]) bad++;
    if (logt <= 8) { auto u = util::ConvertBytesToU8Coeffs(logt, off, n, v); for (size_t i = 0; i < u.size(); i++) if (u[i] != c[i]) bad++; }
  }
  printf("%d wrong\n", bad);
  return bad != 0;
}
'''
USRC = [SP + f for f in ["util.cc", "params.cc", "gadget.cc", "poly_matrix.cc", "arith/ntt.cc", "arith/ntt_table.cc"]]
U = SP + "util.cc"
src = open("/repo/" + U).read()
seed("pack-tail", "P03", [(U, "  coeff_array[flag] = coeff_array[flag] << room;\n  return coeff_array;\n}\n\nstd::vector<uint8_t> ConvertBytesToU8Coeffs(", "  if (room != 0 && flag + 1 < coeff_array_size) {\n    coeff_array[flag] = coeff_array[flag] << room;\n  }\n  return coeff_array;\n}\n\nstd::vector<uint8_t> ConvertBytesToU8Coeffs(")],
  USRC, PK, "the last, partly filled coefficient is not aligned", "a bit length that is not a multiple of the coefficient width", protos=PR)
seed("pack-wide-shift", "P03", [(U, "std::vector<uint64_t> ConvertBytesToCoeffs(\n    size_t logt, size_t offset, size_t size,\n    const std::vector<uint8_t>& byte_array) {\n  size_t coeff_array_size = arith::UintNum(8 * size, logt);\n  std::vector<uint64_t> coeff_array(coeff_array_size);\n\n  size_t room = logt;\n  size_t flag = 0;\n  for (size_t i = 0; i < size; ++i) {\n    uint32_t src = static_cast<uint32_t>(byte_array[i + offset]);\n\n    size_t rest = 8;\n    while (rest != 0) {\n      if (room == 0) {",
   "std::vector<uint64_t> ConvertBytesToCoeffs(\n    size_t logt, size_t offset, size_t size,\n    const std::vector<uint8_t>& byte_array) {\n  size_t coeff_array_size = arith::UintNum(8 * size, logt);\n  std::vector<uint64_t> coeff_array(coeff_array_size);\n\n  size_t room = logt;\n  size_t flag = 0;\n  for (size_t i = 0; i < size; ++i) {\n    uint32_t src = static_cast<uint32_t>(byte_array[i + offset]);\n\n    size_t rest = 8;\n    while (rest != 0) {\n      if (room == 0 || (rest == 8 && room < 3 && flag + 1 < coeff_array_size)) {\n        coeff_array[flag] = coeff_array[flag] << room;")],
  USRC, PK, "a byte that would start in the last two bits of a coefficient is moved to the next one", "widths not dividing 8", protos=PR)
