SPEC = {
 "sources": ["psi/interface.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc",
             "psi/algorithm/ecdh/ecdh_psi.cc", "psi/cryptor/ecc_cryptor.cc", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc",
             "psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/batch_provider_impl.cc",
             "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/index_store.cc", "psi/utils/io.cc", "psi/utils/key.cc", "psi/utils/arrow_helper.cc",
             "psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/utils/pb_helper.cc", "psi/utils/sync.cc", "psi/utils/resource_manager.cc", "psi/utils/bucket.cc",
             "psi/trace_categories.cc", "psi/checkpoint/recovery.cc"],
 "support": [VERIF + "/shims/psi_cryptor.cpp", VERIF + "/shims/sys_sort.cpp"],
 "protos": ["psi/utils/serializable.proto", "psi/utils/table_utils.proto", "psi/proto/psi.proto", "psi/proto/psi_v2.proto", "psi/checkpoint/checkpoint.proto"],
 "entries": [
  {"fn": "h_task", "id": "h_join", "threads": True, "params": {"nr": 2, "ns": 2, "bc": 1}, "sweep": {"quick": {"jt": [1,2,3,4,5]}, "thorough": {"jt": [1,2,3,4,5]}},
   "what": "both parties run a whole task (five join types, either side left), both get the result: reports and line-by-line aligned tables"},
  {"fn": "h_task", "id": "h_side", "threads": True, "params": {"nr": 2, "ns": 1, "bc": 0}, "thorough": {"ns": 2}, "sweep": {"quick": {"jt": [1,2,5]}, "thorough": {"jt": [1,2,3,4,5]}},
   "what": "the same with the result for the receiver only"},
  {"fn": "h_task", "id": "h_uniq", "threads": True, "params": {"nr": 2, "ns": 2, "bc": 1}, "sweep": {"quick": {"uniq": [3], "last": [1]}, "thorough": {"uniq": [1,2,3], "last": [0,1,2,3]}},
   "what": "tables declared to have unique keys, key column anywhere"},
  {"fn": "h_task", "id": "h_digest", "threads": True, "params": {"nr": 2, "ns": 1, "digest": 1, "klen": 2}, "thorough": {"ns": 2}, "sweep": {"quick": {"uniq": [0, 3]}, "thorough": {"uniq": [0, 1, 2, 3]}},
   "what": "the shortcut for equal key sets, keys of one or two letters"},
  {"fn": "h_task", "id": "h_keys2", "threads": True, "params": {"nr": 2, "ns": 2, "cols": 2}, "sweep": {"quick": {"uniq": [3], "last": [1]}, "thorough": {"uniq": [0, 1, 2, 3], "last": [0, 1]}},
   "what": "two key columns, given in another order than the file's"},
  {"fn": "h_task", "id": "h_keys2b", "threads": True, "params": {"nr": 3, "ns": 1, "cols": 2, "fwd": 1, "fixed": 1}, "thorough": {"ns": 2, "fixed": 0},
   "what": "two key columns with another column between them"},
  {"fn": "h_task", "id": "h_three", "threads": True, "tier": "thorough", "params": {"nr": 3, "ns": 2, "batch": 1}, "sweep": {"quick": {"jt": [4]}, "thorough": {"jt": [1,2,3,4,5]}},
   "what": "three rows against two, one item per batch"},
  {"fn": "h_again", "threads": True, "params": {"nr": 1, "ns": 1}, "sweep": {"quick": {"uniq": [0, 3]}, "thorough": {"uniq": [0, 1, 2, 3]}},
   "what": "a second task over the same paths, the input replaced in between by a table of the same size"},
 ],
 "bounds": "two parties; 2x2 tables with arbitrary one-letter keys for every join type and left side (thorough 3x2 with one item per batch); 2x1 (thorough 2x2) for one-sided results and the digest shortcut with keys of one or two letters; declared-unique tables 2x2; two key columns 2x2 and 3x1; two tasks in a row on 1x1 tables; curve 25519; round-robin scheduling; batch size 2",
 "assumptions": ["field values are plain letters and digits: no quotes, commas or line breaks inside fields (the external sort works on raw text)",
   "the curve is an ideal group and hashes are injective", "sort, tail and uniq behave as documented; a stand-in interprets the command lines the code builds",
   "CSV reading, protobuf, link and file system are small models of the library behaviour", "file modification times grow with every change"],
 "thorough_limit": 1800,
}
