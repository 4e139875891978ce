PROP = dict(
 title="KKRT, RR22 and ECDH operators deliver exactly the entitled results",
 statement="For any two stores of items with repetition counts, and any choice of receiver (one party, the other, or both), the KKRT, RR22 and ECDH PSI operators hand each entitled party's result store, bucket by bucket, exactly the indices of its own items that the peer's bucket also holds, each once, with the peer's repetition count, and hand the other party nothing; for RR22 this holds pipelined and in parallel over buckets, and a run that starts from a later bucket processes exactly the buckets from there on.",
 over=["stores", "counts", "receiver", "schedules of buckets"],
 text="all small stores (which items, how often, in which order), receivers, batch sizes and first buckets",
 why="Tests of the operators use one pair of sets each; an empty intersection, counts on only one side, the non-receiver's share, a parallel run and a later first bucket are combinations nobody samples.",
 files=["psi/algorithm/psi_operator.cc", "psi/algorithm/kkrt/kkrt_operator.cc", "psi/algorithm/rr22/rr22_operator.cc", "psi/algorithm/rr22/rr22_psi.h", "psi/algorithm/ecdh/ecdh_operator.cc"],
 mechanism=[("sharing the result with the peer", "psi/algorithm/psi_operator.cc BroadcastIntersection"), ("counts with KKRT results", "psi/algorithm/kkrt/kkrt_operator.cc"), ("pre and post processing of RR22 buckets", "psi/algorithm/rr22/rr22_operator.cc OnRun"), ("buckets on parallel threads", "psi/algorithm/rr22/rr22_psi.h ParallelRun"), ("dual-encrypted points to indices", "psi/algorithm/ecdh/ecdh_operator.cc OnEnd")],
 design="Both parties run their operator on threads over abstract stores of the harness; the set of items per bucket and side, their counts, the sender's order, the receiver, broadcast and batch sizes are symbolic choices. The oracle is the join of the two buckets. ParallelRun is also called directly from a symbolic first bucket.",
 note="Bounded symbolic execution; ideal OPRF, group and hash. Recovery through the operators is covered by the whole-task checks P07 and P10.")
