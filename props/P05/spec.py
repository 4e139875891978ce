CRY = [VERIF + "/shims/psi_cryptor.cpp"]
SPEC = {
 "sources": ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/cryptor/ecc_cryptor.cc", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc",
             "psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/batch_provider_impl.cc",
             "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/index_store.cc", "psi/utils/io.cc", "psi/utils/key.cc", "psi/utils/arrow_helper.cc",
             "psi/checkpoint/recovery.cc", "psi/utils/sync.cc"],
 "support": CRY,
 "protos": ["psi/utils/serializable.proto", "psi/proto/psi.proto", "psi/proto/psi_v2.proto", "psi/checkpoint/checkpoint.proto"],
 "entries": [
  {"fn": "h_run", "threads": True, "params": {"n": 2, "batch": 2}, "what": "both parties run RunEcdhPsi over 0..2 arbitrary items each"},
  {"fn": "h_wide", "threads": True, "params": {"na": 3, "nb": 2}, "thorough": {"nb": 3}, "sweep": {"quick": {"target": [2]}, "thorough": {"target": [0, 1, 2]}}, "what": "several batches: 3 fixed items against arbitrary ones"},
  {"fn": "h_sched", "threads": True, "params": {"nb": 1}, "thorough": {"nb": 2}, "preempt": {"quick": 2, "thorough": 3}, "deviate": True, "what": "both parties, scheduling deviations anywhere"},
  {"fn": "h_store", "id": "h_store2", "threads": True, "params": {"na": 2, "nb": 2, "bins": 2}, "what": "disk stores, duplicate counts and index file"},
  {"fn": "h_store", "id": "h_bins", "threads": True, "params": {"na": 1, "nb": 2, "bins": 2, "hash_mode": 1}, "thorough": {"na": 2}, "what": "as before, items spread over the bins"},
 ],
 "bounds": "two parties; 0..2 arbitrary items a side (2-byte items with one symbolic byte), batch sizes 1..2, any result party, both curve families; 3 fixed items against 2 (thorough 3) arbitrary ones; duplicate counts 0 or a fixed positive number per item; disk stores with 2 bins; at most 2 (thorough 3) deviations from round-robin scheduling over all threads of both parties, context switches at messages, locks and blocking points",
 "assumptions": ["items of one party are pairwise different (the callers deduplicate)", "the curve is an ideal group: hash-to-curve injective, scalar multiplication commutative and injective, all point information within the compared bytes",
   "protobuf, base64, link and file system are small models of the library behaviour", "hash tables iterate in insertion order inside one bucket"],
 "thorough_limit": 1500,
}
