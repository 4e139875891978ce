_p6 = {}
exec(open(VERIF + "/props/P06/spec.py").read(), {"VERIF": VERIF}, _p6)
_T = {"threads": True}
_R = {"hash_table": 1, "par_chunk": 1}
_K = {"hash_table": 1, "spin_yield": 1}
SPEC = {
 "sources": [s for s in _p6["SPEC"]["sources"] if "ecdh/" not in s and "sm2_" not in s and "sodium" not in s and "ecc_cryptor" not in s] +
            ["psi/algorithm/kkrt/receiver.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/kkrt/common.cc", "psi/utils/cuckoo_index.cc",
             "psi/algorithm/rr22/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_utils.cc", "psi/algorithm/rr22/common.cc"],
 "flags": ["-I" + VERIF + "/shims/atomic"],
 "support": [VERIF + "/shims/sys_sort.cpp", VERIF + "/shims/rr22_ideal_oprf.cpp"],
 "protos": _p6["SPEC"]["protos"],
 "entries": [
  dict(fn="h_kkrt", id="h_kkrt_join", params=dict(_K, nr=2, ns=2), sweep={"quick": {"jt": [1,3,5]}, "thorough": {"jt": [1,2,3,4,5]}},
       what="KKRT: whole tasks of both parties, five join types, either side left: reports and line-by-line aligned tables", **_T),
  dict(fn="h_rr22", id="h_rr22_join", params=dict(_R, nr=2, ns=2), sweep={"quick": {"jt": [1,2,4]}, "thorough": {"jt": [1,2,3,4,5]}}, what="RR22: the same", **_T),
  dict(fn="h_kkrt", id="h_kkrt_side", params=dict(_K, nr=2, ns=2, bc=0), sweep={"quick": {"jt": [2]}, "thorough": {"jt": [1,2,5]}}, what="KKRT, result for the receiver only", **_T),
  dict(fn="h_rr22", id="h_rr22_side", params=dict(_R, nr=2, ns=2, bc=0), sweep={"quick": {"jt": [2]}, "thorough": {"jt": [1,2,5]}}, what="RR22, result for the receiver only", **_T),
  dict(fn="h_kkrt", id="h_kkrt_bkt", params=dict(_K, nr=3, ns=2, bucket=2, hash_mode=1, uniq=3), thorough={"uniq": 0}, sweep={"quick": {"hash_salt": [0]}, "thorough": {"hash_salt": [0,1,2]}},
       what="KKRT over two buckets, any of which may be empty", **_T),
  dict(fn="h_rr22", id="h_rr22_bkt", params=dict(_R, nr=2, ns=2, bucket=1, hash_mode=1), sweep={"quick": {"low_comm": [0]}, "thorough": {"low_comm": [0,1]}},
       what="RR22 over two buckets, rows repeating keys", **_T),
  dict(fn="h_runner", params=dict(_R, nb=2), thorough={"nb": 3}, preempt={"quick": 1, "thorough": 2}, deviate=True,
       what="RR22's three overlapping stages (prepare, PRF, intersect) over several buckets, from any first bucket, under schedules that deviate from round robin", **_T),
  dict(fn="h_kkrt", id="h_kkrt_dup", params={"nr": 3, "ns": 3, "last letter": 1, **_K}, thorough={"last letter": 2}, sweep={"quick": {"rand_salt": [0, 1]}, "thorough": {"rand_salt": [0, 1, 2]}},
       what="KKRT, rows repeating one of two keys on both sides, different shuffles", **_T),
  dict(fn="h_rr22", id="h_rr22_dup", params={"nr": 3, "ns": 3, "last letter": 1, **_R}, thorough={"last letter": 2}, sweep={"quick": {"rand_salt": [0]}, "thorough": {"rand_salt": [0, 1, 2]}},
       what="RR22, the same", **_T),
  dict(fn="h_kkrt", id="h_kkrt_many", params=dict(_K, nr=4, ns=2, uniq=3), thorough={"nr": 5}, sweep={"quick": {"hash_salt": [0]}, "thorough": {"hash_salt": [0,1,2,3]}},
       what="KKRT, unequal sizes", **_T),
  dict(fn="h_rr22", id="h_rr22_many", tier="thorough", params=dict(_R, nr=2, ns=4, uniq=3), what="RR22, unequal sizes", **_T),
 ],
 "bounds": "two parties; one-letter keys; 2x2 tables for every join type, left side and result side (quick: each join type for one of the two protocols); 3x2 or 2x2 tables split over two buckets; 4x2 (thorough 5x2, 2x4) tables without repeated keys; the overlapping RR22 stages over 2 (thorough 3) buckets under round robin plus up to 1 (thorough 2) deviations; whole tasks under round robin",
 "assumptions": ["the oblivious PRFs are ideal: KKRT's extension by a stand-in with yacl's interface, RR22's by a stand-in for rr22_oprf.cc (its real code is another property's subject)",
   "Blake3 gives different keys different, otherwise arbitrary fixed digests (a few layouts are tried through hash_salt)",
   "OT corrections travel 4 positions per message instead of 3276; one worker thread per parallel_for",
   "field values are plain letters and digits; sort, tail and uniq, CSV reading, protobuf, link and file system are models, as for ECDH whole tasks"],
 "thorough_limit": 1800,
}
