SPEC = {
 "sources": ["psi/algorithm/spiral/" + f for f in
   ["util.cc", "params.cc", "gadget.cc", "poly_matrix.cc", "arith/ntt.cc", "arith/ntt_table.cc"]],
 "protos": ["psi/algorithm/spiral/serializable.proto", "psi/algorithm/pir_interface/pir_type.proto"],
 "entries": [
  {"fn": "h_pack", "sweep": {"quick": {"logt": [1, 3, 5, 7, 8, 11, 16]}, "thorough": {"logt": list(range(1, 25)) + [32, 40]}},
   "quick": {"max": 10}, "thorough": {"max": 24},
   "what": "bytes to plaintext coefficients and back for every content, length and start: coefficient range, bit position, round trip"},
  {"fn": "h_pack8", "sweep": {"quick": {"logt": [1, 3, 5, 7, 8]}, "thorough": {"logt": [1, 2, 3, 4, 5, 6, 7, 8]}},
   "quick": {"max": 10}, "thorough": {"max": 24},
   "what": "the byte-wide packing stores the same coefficients as the 64-bit one"},
 ],
 "bounds": "widths of 1..16 (quick: seven of them) or 1..24, 32 and 40 bits, every length 1..10 or 1..24, starts 0..2, every byte symbolic",
 "assumptions": [],
}
