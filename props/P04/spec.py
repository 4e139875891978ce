SPEC = {
 "sources": ["psi/algorithm/spiral/" + f for f in
   ["util.cc", "params.cc", "gadget.cc", "poly_matrix.cc", "poly_matrix_utils.cc", "discrete_gaussian.cc", "arith/ntt.cc", "arith/ntt_table.cc"]],
 "protos": ["psi/algorithm/spiral/serializable.proto", "psi/algorithm/pir_interface/pir_type.proto"],
 "entries": [
  {"fn": "h_scalar", "sweep": {"quick": {"op": [0, 1, 2, 3, 4, 5, 6]}, "thorough": {"op": [0, 1, 2, 3, 4, 5, 6]}},
   "quick": {"bits": 12}, "thorough": {"bits": 16},
   "what": "reductions, centring, rescaling, CRT composition and modular product/sum against exact arithmetic"},
  {"fn": "h_ring", "sweep": {"quick": {"op": [0, 1, 2, 3]}, "thorough": {"op": [0, 1, 2, 3]}}, "quick": {"n": 8}, "thorough": {"n": 16},
   "what": "transform and back, products, sums, automorphisms and negation of polynomials against schoolbook arithmetic"},
  {"fn": "h_gadget", "sweep": {"quick": {"t": [2, 4, 8, 56]}, "thorough": {"t": [1, 2, 3, 4, 6, 8, 20, 28, 56, 57]}},
   "what": "gadget digits are in range and the gadget times the digits is the value"},
 ],
 "bounds": "two working moduli pairs; scalars: every 12-bit (quick) or 16-bit window at fixed bases around zero, half and the ends of the range; polynomials of 8 or 16 coefficients with one symbolic 8-bit coefficient window at every position; gadget: every 56-bit value, swept digit counts",
 "assumptions": ["inputs in the documented range of each operation", "portable (non-AVX2) code paths"],
}
