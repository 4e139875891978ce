PROP = dict(
 title="An interrupted KKRT or RR22 task stops, and resumes to the right result",
 statement="With recovery enabled on both parties, a KKRT or RR22 PSI task that is interrupted at any point (a party loses its link at any message, or crashes right after any change it makes on disk) ends on both parties instead of waiting forever, and when both run it again with the same configuration it completes, and the reports and output tables of both are exactly those of an uninterrupted run: no bucket is lost, and none is counted twice.",
 over=["crash points", "link failures", "inputs"],
 text="every message at which a party's link can fail and every change on disk after which a party can crash, for small tables in several buckets, one-sided and shared results",
 why="No test resumes these protocols; whether a bucket is lost, repeated or left in a stage depends on the exact point of the interruption on one party relative to the other's progress.",
 files=["psi/checkpoint/recovery.cc", "psi/algorithm/kkrt/receiver.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/rr22/rr22_psi.h", "psi/utils/index_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/bucket.cc", "psi/interface.cc"],
 mechanism=[("checkpoint stages and bucket counts", "psi/checkpoint/recovery.cc"), ("first bucket of the resumed run", "psi/algorithm/kkrt/receiver.cc, sender.cc and psi/algorithm/rr22/receiver.cc, sender.cc Online"), ("order of index commit and count", "psi/algorithm/rr22/receiver.cc post_f, psi/algorithm/kkrt/receiver.cc Online"), ("repeated indices", "psi/interface.cc Finalize"), ("ending all stages after a failure", "psi/algorithm/rr22/rr22_psi.h AsyncRun, psi/algorithm/kkrt/kkrt_psi.cc KkrtPsiSend")],
 design="As P07, for the bucketed protocols: both parties' Run() executes symbolically with the interruption a symbolic choice at every message or disk change of one party; a party that waits forever is a deadlock the engine reports; fresh objects run again on the same folders, and reports and tables are compared with the join.",
 note="Bounded symbolic execution over all interruption points; ideal OPRFs.")
