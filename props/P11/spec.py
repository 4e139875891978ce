_T = {"threads": True}
_K = {"spin_yield": 1}
_M = "KkrtPsiSend and KkrtPsiRecvIndices side by side, every pattern of the items' cuckoo positions: exactly the common items, once, with the sender's repetitions; "
SPEC = {
 "sources": ["psi/algorithm/kkrt/kkrt_psi.cc", "psi/utils/cuckoo_index.cc"],
 "flags": ["-I" + VERIF + "/shims/atomic"],
 "protos": ["psi/utils/serializable.proto"],
 "entries": [
  dict(fn="h_cuckoo", params=dict(n=2, stash=1, bins=2, tries=6), thorough={"bins": 4}, what="CuckooIndex::Insert in one or two calls: every item once, at one of its own positions, or in the stash, or refused only on a clash; MinCollidingHashIdx; positions symbolic"),
  dict(fn="h_cuckoo", id="h_cuckoo_nostash", params=dict(n=2, stash=0, bins=2, tries=6), thorough={"bins": 4}, what="the same without a stash"),
  dict(fn="h_cuckoo", id="h_cuckoo_three", params=dict(n=3, stash=1, bins=2, tries=9, split=1), thorough={"bins": 3}, what="the same, three items, forking over their positions"),
  dict(fn="h_cuckoo", id="h_cuckoo_room", params=dict(n=2, stash=0, bins=3, tries=7, split=1), thorough={"bins": 4}, what="the same, more room"),
  dict(fn="h_cuckoo", id="h_cuckoo_four", tier="thorough", params=dict(n=4, stash=2, bins=2, tries=9, split=1), what="the same, four items, a stash of two"),
  dict(fn="h_hash", what="the positions of a hash and the packing of a bin, any 128-bit hash, any item number and position index"),
  dict(fn="h_match", params=dict(_K, nr=2, ns=2, range=2), thorough={"range": 3}, what=_M + "2 x 2 items", **_T),
  dict(fn="h_match", id="h_match_three", params=dict(_K, nr=3, ns=1, range=2, counts=1), thorough={"ns": 2}, what=_M + "three receiver items", **_T),
  dict(fn="h_match", id="h_match_batches", params=dict(_K, nr=2, ns=3, range=2, psib=2, ot_batch=0, counts=2), sweep={"quick": {"otb": [3]}, "thorough": {"otb": [1, 3, 7, 100]}},
       what=_M + "messages of two items, different correction batch sizes", **_T),
  dict(fn="h_match", id="h_match_shuffle", tier="thorough", params=dict(_K, nr=2, ns=3, range=2, psib=2, counts=2), sweep={"quick": {"rand_salt": [1]}, "thorough": {"rand_salt": [1, 2, 3, 4, 5]}}, what=_M + "other shuffles", **_T),
 ],
 "bounds": "Cuckoo tables of 2 bins (thorough 4; 3 for three items) with 2 to 4 items and at most 9 rounds of eviction; every combination of the items' three positions. Matching: 2x2, 3x1 (thorough 3x2) and 2x3 items, whose positions range over 2 (thorough 3) of the 10 or 11 bins, repetitions up to 2, messages of 1 or 2 items, a few shuffles, one schedule.",
 "assumptions": ["The OPRF extension is ideal, with yacl's interface, and rejects corrections out of order or in other amounts than announced.", "The items of one side are distinct."],
}
