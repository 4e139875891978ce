PROP = dict(
 title="Cuckoo placement and KKRT matching are right for any item hashes",
 statement="Whatever the 128-bit hashes of the items are - even when an item's cuckoo positions coincide with each other or with those of other items - a cuckoo table holds every inserted item exactly once, at one of its own positions or in the stash, after any number of insert calls, or refuses; and the KKRT exchange then reports to the receiver exactly the common items, each once, with the number of times the sender has it, for any message and correction batch sizes, or the receiver refuses because its items cannot be placed.",
 over=["inputs", "hash values", "batch sizes"],
 text="all patterns of colliding positions for small sets, both sides, repetition counts and batch sizes",
 why="Tests use hashes of consecutive numbers; coinciding positions of one item, evictions through particular positions, later insert calls and counts in a second message need specific hashes or sizes.",
 files=["psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/kkrt/kkrt_psi.h", "psi/utils/cuckoo_index.cc", "psi/utils/cuckoo_index.h", "psi/utils/communication.h"],
 mechanism=[("placement and eviction", "psi/utils/cuckoo_index.cc CuckooIndex::Insert"), ("least position index of a bin", "psi/utils/cuckoo_index.cc MinCollidingHashIdx"), ("coinciding positions of a sender item", "psi/algorithm/kkrt/kkrt_psi.cc KkrtPsiSend"), ("counts per message", "psi/algorithm/kkrt/kkrt_psi.cc KkrtPsiSend, KkrtPsiRecvIndices")],
 design="CuckooIndex executes with symbolic positions (the bits of the hash that decide them), the call split symbolic; the oracle recomputes positions from the hash bytes. KkrtPsiSend and KkrtPsiRecvIndices run as two threads over every pattern of positions, common items and counts, with an ideal OPRF that also checks the order of corrections.",
 note="Bounded symbolic execution; ideal OPRF.")
