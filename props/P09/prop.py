PROP = dict(
 title="KKRT and RR22 tasks write the join of the two tables",
 statement="When both parties run a whole KKRT or RR22 PSI task, each party that gets the result writes exactly the rows the chosen join selects, line by line aligned with the other party's file, and the reports give the true row and key counts; a party without the result writes nothing and reports -1. It does not matter how the keys hash, how the items are shuffled, into how many buckets they fall (some may be empty on either side), how the worker threads and the stages of a bucket are scheduled, or how large the two sides are; buckets are finished once each, in order.",
 over=["inputs", "configurations", "schedules"],
 text="all small tables of both parties, join types, left sides, result sharing, bucket layouts including empty buckets, repeated keys on both sides, and (for RR22's overlapping stages) bounded deviations of the schedule",
 why="The protocol tests need libraries that are not built here and compare a few random sets without whole tasks; count alignment after shuffles, positions within buckets and stage ordering only show on particular inputs and schedules.",
 files=["psi/algorithm/kkrt/receiver.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_psi.h", "psi/algorithm/rr22/rr22_utils.cc", "psi/utils/bucket.cc", "psi/utils/cuckoo_index.cc", "psi/interface.cc"],
 mechanism=[("KKRT exchange", "psi/algorithm/kkrt/kkrt_psi.cc KkrtPsiSend, KkrtPsiRecvIndices"), ("cuckoo placement", "psi/utils/cuckoo_index.cc CuckooIndex::Insert"), ("results of a bucket", "psi/utils/bucket.cc HandleBucketResultBySender, HandleBucketResultByReceiver"), ("RR22 stages", "psi/algorithm/rr22/rr22_psi.h Rr22Runner::AsyncRun"), ("RR22 matching", "psi/algorithm/rr22/rr22_utils.cc GetIntersectionReceiver, GetIntersectionSender")],
 design="KkrtPsiReceiver/Sender::Run and Rr22PsiReceiver/Sender::Run execute symbolically side by side on symbolic tables, with the real cuckoo table, bucket stores, shuffles and result exchange; only the oblivious PRF is ideal. The written files are compared with the SQL join. Rr22Runner::AsyncRun also runs on its own over several buckets, every schedule within a number of deviations, from any first bucket.",
 note="Bounded symbolic execution; ideal OPRFs; concrete pseudo-random digests per distinct key.")
