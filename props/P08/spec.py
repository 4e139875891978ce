SPEC = {
 "sources": ["psi/interface.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc",
             "psi/algorithm/ecdh/ecdh_psi.cc", "psi/cryptor/ecc_cryptor.cc", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc",
             "psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/batch_provider_impl.cc",
             "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/index_store.cc", "psi/utils/io.cc", "psi/utils/key.cc", "psi/utils/arrow_helper.cc",
             "psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/utils/pb_helper.cc", "psi/utils/sync.cc", "psi/utils/resource_manager.cc", "psi/utils/bucket.cc",
             "psi/trace_categories.cc", "psi/checkpoint/recovery.cc"],
 "support": [VERIF + "/shims/psi_cryptor.cpp", VERIF + "/shims/sys_sort.cpp"],
 "protos": ["psi/utils/serializable.proto", "psi/utils/table_utils.proto", "psi/proto/psi.proto", "psi/proto/psi_v2.proto", "psi/checkpoint/checkpoint.proto"],
 "entries": [
  {"fn": "h_wire", "threads": True, "params": {"na": 2, "nb": 1}, "thorough": {"nb": 2}, "what": "every message of the two-party protocol, against the items, keys and the right to the result"},
  {"fn": "h_view", "threads": True, "params": {"nr": 1}, "thorough": {"nr": 2}, "what": "two whole tasks with different receiver tables: what the sender without the result is sent"},
 ],
 "bounds": "protocol transcripts: 2 items against 1 (thorough 2) with any distinct one-byte suffixes, one or two items per batch, curve 25519 and SM2, result to one side or to both, any duplicate counts 0 or 1; whole tasks: sender table of 2 rows, two receiver tables of 1 (thorough 2) different keys with or without one repeated row, one-sided result, no digest shortcut; round-robin scheduling",
 "assumptions": ["the curve is an ideal group and hashes are injective: a masked point tells nothing without the key",
   "link, CSV reading, protobuf and file system are small models of the library behaviour", "the digest shortcut (check_hash_digest) is off: it reveals whether the key columns are equal, as documented"],
 "thorough_limit": 1800,
}
