SPEC = {
 "sources": ["psi/interface.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc",
             "psi/algorithm/ecdh/ecdh_psi.cc", "psi/cryptor/ecc_cryptor.cc", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc",
             "psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/batch_provider_impl.cc",
             "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/index_store.cc", "psi/utils/io.cc", "psi/utils/key.cc", "psi/utils/arrow_helper.cc",
             "psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/utils/pb_helper.cc", "psi/utils/sync.cc", "psi/utils/resource_manager.cc", "psi/utils/bucket.cc",
             "psi/trace_categories.cc", "psi/checkpoint/recovery.cc"],
 "support": [VERIF + "/shims/psi_cryptor.cpp", VERIF + "/shims/sys_sort.cpp"],
 "protos": ["psi/utils/serializable.proto", "psi/utils/table_utils.proto", "psi/proto/psi.proto", "psi/proto/psi_v2.proto", "psi/checkpoint/checkpoint.proto"],
 "entries": [
  {"fn": "h_resume", "id": "h_link", "threads": True, "params": {"nr": 3, "ns": 3, "batch": 1, "batch2": 2, "disk": 0}, "thorough": {"free": 1}, "sweep": {"quick": {"party": [0,1], "bc": [0, 1]}, "thorough": {"party": [0,1], "bc": [0, 1]}},
   "what": "the link of one party is lost at any message, then both run again"},
  {"fn": "h_resume", "id": "h_crash", "threads": True, "params": {"nr": 3, "ns": 3, "batch": 1, "batch2": 2, "disk": 1}, "thorough": {"free": 1}, "sweep": {"quick": {"party": [0,1], "bc": [0, 1]}, "thorough": {"party": [0,1], "bc": [0, 1]}},
   "what": "one party crashes before any change it makes on disk, then both run again"},
 ],
 "bounds": "one interruption of one party, then one uninterrupted run; 3x3 tables with a duplicated key (thorough: one key of each side arbitrary); one key per batch, two after the restart; result for one or both; round-robin scheduling",
 "assumptions": ["field values are plain letters and digits: no quotes, commas or line breaks inside fields (the external sort works on raw text)",
   "the curve is an ideal group and hashes are injective", "sort, tail and uniq behave as documented; a stand-in interprets the command lines the code builds",
   "CSV reading, protobuf, link and file system are small models of the library behaviour", "writes reach the disk in program order and whole; renaming a file is atomic"],
 "thorough_limit": 1800,
}
