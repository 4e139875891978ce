P = {"avx2": 1, "hash_table": 1}
SPEC = {
 "sources": ["psi/interface.cc", "psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/client.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc",
             "psi/algorithm/ecdh/ub_psi/ecdh_oprf_selector.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc",
             "psi/utils/ec_point_store.cc", "psi/utils/ec.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/batch_provider_impl.cc",
             "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/index_store.cc", "psi/utils/io.cc", "psi/utils/key.cc", "psi/utils/arrow_helper.cc",
             "psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/utils/pb_helper.cc", "psi/utils/sync.cc", "psi/utils/resource_manager.cc", "psi/utils/bucket.cc",
             "psi/trace_categories.cc", "psi/checkpoint/recovery.cc"],
 "support": [VERIF + "/shims/sys_sort.cpp"],
 "protos": ["psi/utils/serializable.proto", "psi/utils/table_utils.proto", "psi/proto/psi.proto", "psi/proto/psi_v2.proto", "psi/checkpoint/checkpoint.proto", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.proto"],
"entries": [
  {"fn": "h_task", "id": "h_join", "threads": True, "params": {**P, "nr": 2, "ns": 2}, "sweep": {"quick": {"jt": [1,2,3,4,5], "flow": [0]}, "thorough": {"jt": [1,2,3,4,5], "flow": [0, 1, 2]}},
   "what": "generate the cache, transfer it, online phase, result for both parties, five join types, either side left"},
  {"fn": "h_task", "id": "h_flow", "threads": True, "params": {**P, "nr": 2, "ns": 2, "batch": 1}, "sweep": {"quick": {"flow": [1, 2], "jt": [4]}, "thorough": {"flow": [1, 2], "jt": [1,2,3,4,5], "rand_salt": [1, 2]}},
   "what": "offline and online, or everything in one task; one item per batch"},
  {"fn": "h_task", "id": "h_side", "threads": True, "params": {**P, "nr": 2, "ns": 2, "batch": 1}, "sweep": {"quick": {"who": [1, 2], "jt": [1, 4]}, "thorough": {"who": [1, 2], "jt": [1,2,3,4,5]}},
   "what": "the result for one party only (the server alone: shuffled evaluation)"},
  {"fn": "h_task", "id": "h_three", "threads": True, "params": {**P, "nr": 2, "ns": 3, "jt": 1, "batch": 2, "cpus": 2, "last": 2, "last letter": 3}, "thorough": {"nr": 3, "last letter": 25}, "sweep": {"quick": {"who": [2, 3]}, "thorough": {"who": [1, 2, 3], "jt": [1, 4, 5]}},
   "what": "three rows on the server, two CPUs"},
  {"fn": "h_task", "id": "h_keys2", "threads": True, "params": {**P, "nr": 2, "ns": 2, "cols": 2, "last": 1, "last letter": 3}, "sweep": {"quick": {"jt": [1]}, "thorough": {"jt": [1, 4], "fwd": [0, 1], "last": [0, 1, 2]}},
   "what": "two key columns"},
  {"fn": "h_task", "id": "h_again", "threads": True, "params": {**P, "nr": 1, "ns": 2, "online": 2}, "sweep": {"quick": {"who": [3]}, "thorough": {"who": [1, 2, 3], "jt": [1, 4]}},
   "what": "two online phases with different client tables over one cache"},
  {"fn": "h_task", "id": "h_sched", "threads": True, "params": {**P, "nr": 1, "ns": 1, "free": 0}, "deviate": True, "preempt": {"quick": 1, "thorough": 2}, "sweep": {"quick": {"who": [2, 3]}, "thorough": {"who": [1, 2, 3]}},
   "what": "other schedules of both parties' threads"},
  {"fn": "h_broken", "threads": True, "params": {**P, "batch": 1, "ns": 2, "points": 6}, "thorough": {"ns": 3, "points": 8}, "what": "the transfer fails after any number of messages of either party, then an online phase"},
  {"fn": "h_oprf", "params": {**P}, "what": "blind, evaluate, unblind"},
  {"fn": "h_cache", "params": {"len": 12}, "sweep": {"quick": {"len": [12]}, "thorough": {"len": [1, 12, 31]}}, "what": "the server's cache read back"},
  {"fn": "h_store", "threads": True, "params": {"cpus": 1}, "sweep": {"quick": {"cpus": [1, 2]}, "thorough": {"cpus": [1, 2, 3, 4]}}, "what": "the client's cache reopened, and the comparison with the client's own values"},
  {"fn": "h_direct", "threads": True, "params": {**P, "n": 3, "m": 2}, "sweep": {"quick": {"sm2": [0, 1], "shuffle": [0, 1]}, "thorough": {"sm2": [0, 1], "shuffle": [0, 1], "batch": [1, 2, 3], "one_key": [0, 1], "cpus": [1, 2]}},
   "what": "full evaluation with direct sending, several batches, a key per item, masked items sent back"},
  {"fn": "h_direct", "id": "h_shuffled", "threads": True, "params": {**P, "n": 1, "m": 4, "shuffle": 1, "batch": 3}, "sweep": {"quick": {"rand_salt": [0, 1, 2]}, "thorough": {"rand_salt": [0, 1, 2, 3, 4, 5], "sm2": [0, 1], "m": [3, 4, 5]}},
   "what": "shuffled evaluation of more items"},
  {"fn": "h_view", "threads": True, "params": {**P}, "sweep": {"quick": {"who": [1, 3]}, "thorough": {"who": [1, 2, 3]}}, "what": "messages of two runs over different keys"},
 ],
 "bounds": "whole tasks: up to 2 x 3 rows over 25 letters with any repetition (1 or 2 key columns), batches of 1, 2 or the real 8192, 1 or 2 CPUs; broken transfer: 2 to 3 keys, up to 8 messages; OPRF: items up to 2 bytes; caches: up to 3 items; up to 2 deviations from the round-robin schedule",
 "assumptions": ["ideal group for FourQ / OpenSSL curves and ideal hash", "columns besides the keys are opaque", "other kinds of fault than an exception at a message (a killed process, a full disk) are not explored here"],
 "thorough_limit": 1800,
}
