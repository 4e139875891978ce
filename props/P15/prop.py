PROP = dict(
 title="PSI among three and more parties yields exactly the common items",
 statement="For any number of parties (two to five), any sets of distinct items at each party, possibly empty, of any sizes and orders, any receiver and any assignment of roles, the in-memory PSI tasks (three-party ECDH, pairwise ECDH and KKRT for n parties, KKRT for two) and the server-aided NTY protocol end at every party, give the receiver exactly the items common to all parties, each once (three-party ECDH in the receiver's order), give every other party the same list when the result is broadcast and nothing otherwise. Tasks of no type, for a receiver outside the world, with equal roles, or of three parties among another number are refused. Messages of the ECDH protocols depend on the items only through which of them are equal, and no message of NTY carries an item.",
 over=["sets", "numbers of parties", "receivers and roles", "orders", "schedules"],
 text="all families of sets over up to three items for two to five parties, receivers, roles, orders and broadcast settings",
 why="Tests of these protocols use random large sets with a fixed receiver; sets that become empty half way, differing sizes, an odd party out, other receivers and role assignments are combinations nobody samples.",
 files=["psi/algorithm/ecdh/ecdh_3pc_psi.cc", "psi/legacy/ecdh_3party_psi.cc", "psi/legacy/nparty_psi.cc", "psi/legacy/kkrt_2party_psi.cc", "psi/legacy/memory_psi.cc", "psi/legacy/base_operator.cc", "psi/algorithm/nty/nty_mp_psi.cc", "psi/algorithm/nty/server_aided_psi.cc", "psi/algorithm/rr22/okvs/baxos.cc", "psi/algorithm/rr22/okvs/paxos.cc"],
 mechanism=[("three-party masking and final match", "psi/algorithm/ecdh/ecdh_3pc_psi.cc"), ("pairing of parties level by level", "psi/legacy/nparty_psi.cc OnRun, GetPsiRank"), ("checks and early end", "psi/legacy/memory_psi.cc"), ("OKVS exchange and server-aided match", "psi/algorithm/nty/nty_mp_psi.cc, server_aided_psi.cc")],
 design="All parties run the real code on threads over the link model; each party's set, its order, the receiver, roles and broadcast are symbolic choices. The oracle is the intersection of the sets. The batch size constant of the protocols (4096) is set to 2 by an overlay header generated from the current one, so that several batches occur. NTY runs the real OKVS (Baxos / Paxos solve and decode). h_view compares all messages of two runs over renamed (symbolic) items; h_sched explores deviating schedules.",
 note="Bounded symbolic execution; ideal group, hash, block cipher and OT. DP-PSI is not covered (its result is random by design).")
