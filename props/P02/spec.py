SPEC = {
 "sources": ["psi/algorithm/spiral/" + f for f in
   ["util.cc", "params.cc", "gadget.cc", "poly_matrix.cc", "poly_matrix_utils.cc", "discrete_gaussian.cc", "serialize.cc",
    "spiral_server.cc", "arith/ntt.cc", "arith/ntt_table.cc"]] + ["psi/algorithm/pir_interface/pir_db.cc"],
 "support": ["props/P02/client_small.cpp"],
 "protos": ["psi/algorithm/spiral/serializable.proto", "psi/algorithm/pir_interface/pir_type.proto"],
 "entries": [
  {"fn": "h_retrieve", "sweep": {"quick": {"shape": [0, 1, 2, 3, 4]}, "thorough": {"shape": [0, 1, 2, 3, 4, 5, 6]}},
   "what": "for a database of symbolic bytes and every row index: the slot selected by the query and the bytes decoded from the selected plaintexts are that row"},
  {"fn": "h_layout", "sweep": {"quick": {"shape": [0, 3]}, "thorough": {"shape": [0, 1, 2, 3, 4, 5, 6]}},
   "what": "the layout the server evaluates on holds every plaintext, transformed, at the slot its number addresses, the same from both construction paths"},
 ],
 "bounds": "",
 "assumptions": [],
}
