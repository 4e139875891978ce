import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
SP = "psi/algorithm/spiral/"
PR = ["psi/algorithm/spiral/serializable.proto", "psi/algorithm/pir_interface/pir_type.proto"]
A = SP + "arith/arith.h"
seed("rescale-half", "P04", [(A, "  std::int64_t sign = (in_val >= 0) ? 1 : -1;", "  std::int64_t sign = (in_val >= 0) ? 1 : 0;")], [],
 r'''
#include "psi/algorithm/spiral/arith/arith.h"
#include <cstdio>
using namespace psi::spiral;
int main() {
  const uint64_t in = 268369921ULL * 249561089ULL, out = 1032193;
  int bad = 0;
  for (uint64_t i = 0; i < 2000; i++) {
    uint64_t v = in - 1 - i * 987654321987ULL % in;
    __int128 c = v >= in / 2 ? (__int128)v - (__int128)in : v;
    __int128 d = (c * (__int128)out - (__int128)arith::Rescale(v, in, out) * (__int128)in) % ((__int128)in * out);
    if (d < 0) d += (__int128)in * out;
    if (d > (__int128)in * out / 2) d -= (__int128)in * out;
    if (d > (__int128)in / 2 + 1 || -d > (__int128)in / 2 + 1) bad++;
  }
  printf("%d wrong\n", bad);
  return bad != 0;
}''', "rescaling negative values truncates instead of rounding to nearest", "a value in the upper half of the ring whose fraction is above one half", protos=PR)
G = SP + "gadget.cc"
seed("gadget-mask", "P04", [(G, "            piece = (val >> bit_offs) & mask;", "            piece = (val >> bit_offs) & (k + 1 == num_elements && num_elements > 8 ? mask >> (bits_per * num_elements - params.ModulusLog2() + 1) : mask);")],
 [SP + f for f in ["util.cc", "params.cc", "gadget.cc", "poly_matrix.cc", "arith/ntt.cc", "arith/ntt_table.cc"]],
 r'''
#include "psi/algorithm/spiral/gadget.h"
#include "psi/algorithm/spiral/util.h"
#include <cstdio>
using namespace psi::spiral;
int main() {
  Params params(8, {268369921, 249561089}, 0.05, PolyMatrixParams(2, 256, 21, 4, 8, 8, 6), QueryParams(2, 1, 1));
  int bad = 0;
  for (size_t t : {2, 3, 4, 5, 6, 7, 8, 20, 28, 56}) {
    auto g = util::BuildGadget(params, 1, t);
    auto in = PolyMatrixRaw::Zero(8, 1, 1), out = PolyMatrixRaw::Zero(8, t, 1);
    for (int z = 0; z < 8; z++) in.Data()[z] = params.Modulus() - 1 - z * 1000003;
    util::GadgetInvertRdim(params, out, in, 1);
    for (int z = 0; z < 8; z++) { uint64_t s = 0; for (size_t k = 0; k < t; k++) s += g.Poly(0, k)[0] * out.Poly(k, 0)[z]; if (s != in.Data()[z]) bad++; }
  }
  printf("%d wrong\n", bad);
  return bad != 0;
}''', "the top digit of a decomposition into many digits loses its high bit", "more than eight digits and a value near the modulus", protos=PR)
