PROP = dict(
 title="UB-PSI gives exactly the join in every mode, over whole caches only",
 statement="For any tables, key columns, join type, left side and choice of who gets the result, every documented way to run unbalanced PSI (generate the cache, transfer it, online; offline then online; everything in one task; further online phases over the same caches) gives each party entitled to the result exactly the rows of the join of both tables with the right counts in its report, and the other party no output file. The OPRF below agrees on x and y exactly when x = y under one server key; both caches read back what was saved, in any batches; a transfer that broke off, or never took place, is never taken for a complete server cache; and the messages depend on the keys only through which of them are equal, never carry the server's key, and hide the client's repetitions from a server that gets no result.",
 over=["tables", "modes", "join types", "entitled parties", "batch sizes", "failure points", "schedules"],
 text="all small tables (keys and repetitions symbolic), sequences of modes, join types, left sides, entitled parties, batch sizes and failures after any message of the transfer",
 why="The repository's tests run two or three fixed CSV files through one order of modes and never break off a transfer, run twice over one cache, or look at which party sees what.",
 files=["psi/algorithm/ecdh/ub_psi/client.cc", "psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc", "psi/utils/ec_point_store.cc", "psi/utils/batch_provider_impl.cc"],
 mechanism=[("modes of the client", "psi/algorithm/ecdh/ub_psi/client.cc"), ("modes of the server", "psi/algorithm/ecdh/ub_psi/server.cc"), ("evaluation, sending, masking, shuffling", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc"), ("server cache", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"), ("client cache and its completeness", "psi/utils/ec_point_store.cc UbPsiClientCacheFileStore")],
 design="Whole tasks: both real parties run on threads through the table readers, caches, join processors and result writers over symbolic key columns, in each sequence of modes; the oracle is the SQL join of the two tables (lib/task.h, shared with P06). h_broken breaks the transfer off after any number of messages of either party (over no earlier cache, or a complete one) and then runs the online phase: the result is refused or complete. h_oprf, h_cache, h_store and h_direct decide the layers below for symbolic keys, items and counts. h_view compares all messages of two runs.",
 note="Bounded symbolic execution; the curves (FourQ and OpenSSL) are an ideal group, the hash is ideal.")
