_p5 = {}
exec(open(VERIF + "/props/P05/spec.py").read(), {"VERIF": VERIF}, _p5)
_T = {"threads": True}
_D = dict(preempt={"quick": 1, "thorough": 2}, deviate=True)
SPEC = {
 "sources": ["psi/utils/sync.cc", "psi/utils/bucket.cc", "psi/utils/communication.cc", "psi/utils/index_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/io.cc", "psi/utils/multiplex_disk_cache.cc"],
 "protos": _p5["SPEC"]["protos"],
 "support": [VERIF + "/shims/sys_sort.cpp"],
 "entries": [
  dict(fn="h_numbers", params={}, what="any 64-bit size, up to two 32- and 64-bit indexes"),
  dict(fn="h_items", params={}, what="up to two strings of up to two ASCII bytes, any counts"),
  dict(fn="h_batch", params={}, what="a PSI data batch: any numbers, bytes, flags and counts"),
  dict(fn="h_compare", params={}, what="the number of compared bytes for all sizes 2^a, 2^a + 1"),
  dict(fn="h_gather", params={}, thorough={"parties": 4}, what="sizes and flags of 2 and 3 parties", **_T),
  dict(fn="h_broadcast", params={}, sweep={"quick": {"counts": [0, 1]}, "thorough": {"counts": [0, 1], "parties": [3, 4]}}, what="sharing a result among 2 and 3 parties, any owners, items and counts", **_T),
  dict(fn="h_wait", params={"timeouts": 2}, thorough={"parties": 3, "timeouts": 3}, what="SyncWait around work that takes any time or fails at one party; timed waits may give up", **_D, **_T),
  dict(fn="h_p2p", params={}, thorough={"parties": 4}, sweep={"quick": {"names": [0, 1]}, "thorough": {"names": [0, 1]}}, what="links of all pairs of 2 and 3 parties, created in two orders, party names in any order", **_T),
  dict(fn="h_negotiate", params={}, thorough={"parties": 4}, what="number of buckets of 2 and 3 parties, any numbers of items below 2^40 for bucket sizes 1, 2, 64, 2^20, up to twice the bucket size for 3 and 7", **_T),
  dict(fn="h_equal", params={}, what="equality of up to 4 digests"),
  dict(fn="h_result", params={}, thorough={"letters": 4}, what="one bucket's result as index files of receiver and sender, any items and counts", **_T),
  dict(fn="h_prepare", params={"hash_mode": 1}, what="loading a bucket of two, either party's share possibly empty", **_T),
 ],
 "bounds": "2 to 3 parties (thorough 4), up to 3 items per message, strings of up to 3 bytes; counts, indexes and sizes are any numbers",
 "assumptions": ["protobuf itself is a stand-in with the same field semantics", "strings in protobuf string fields are ASCII", "reliable ordered links"],
}
