PROP = dict(
 title="An interrupted ECDH PSI task with recovery resumes to the right result",
 statement="With recovery enabled on both parties, an ECDH PSI task that is interrupted at any point (a party loses its link at any message, or crashes before any change it makes on disk) and is then run again with the same configuration completes, and both parties' reports and output tables are exactly those of an uninterrupted run.",
 over=["crash points", "link failures", "inputs"],
 text="every message at which a party's link can fail and every change on disk before which a party can crash, for one-sided and shared results and small tables",
 why="The tests need libraries that are not built here, and interrupt a run at one chosen batch only; the damage depends on the exact point between two writes of two parties.",
 files=["psi/checkpoint/recovery.cc", "psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/ec_point_store.cc", "psi/interface.cc"],
 mechanism=[("checkpoint stages and counts", "psi/checkpoint/recovery.cc"), ("resume position", "psi/algorithm/ecdh/ecdh_psi.cc RunEcdhPsi, MaskSelf"), ("stores kept on disk", "psi/utils/hash_bucket_cache.cc"), ("order of flush, count and message", "psi/algorithm/ecdh/ecdh_psi.cc MaskPeer, RecvDualMaskedSelf")],
 design="Both parties' Run() executes symbolically; the point of interruption is a symbolic choice at every message or disk change of one party. A crash keeps the party's files as they were at that instant. Fresh objects then run again on the same folders, and reports and tables are compared with the join of the inputs, as in P06.",
 note="Bounded symbolic execution over all interruption points.")
