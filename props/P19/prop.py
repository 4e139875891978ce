PROP = dict(
 title="Legacy file-based tasks give each party its rows of the common keys",
 statement="For any tables of two or three parties with distinct keys of one or more columns (keys that run together included), in any order and possibly empty, any receiver, broadcast, sorting, bucket size and protocol, a legacy task gives every party with a right to the result a file with the header and exactly its rows of the keys common to all, in the order of the table or, where sorting is asked, in the same order of keys at all parties; a party without the right gets no file and a count of -1; reports count rows and common keys; no temporary file stays behind; the last progress shown is 100 percent and it never goes back. Tables that repeat a key are refused when the check is on, and empty keys, missing columns and byte order marks always; two tables count as already aligned exactly when they have the same keys in the same order; rows are picked by position exactly, or refused if the positions are not ascending.",
 over=["tables", "orders", "receivers", "bucket sizes", "positions", "schedules"],
 text="all tables over two or three keys, orders, repetitions, receivers, broadcast, sorting, bucket sizes; all position lists up to 3 of 4 rows",
 why="Tests use a few fixed tables; which key lists collide in a digest, which position lists or mixtures of buckets, receivers and sorting go wrong is not sampled.",
 files=["psi/legacy/bucket_psi.cc", "psi/legacy/bucket_psi.h", "psi/utils/csv_checker.cc", "psi/utils/key.cc", "psi/legacy/memory_psi.cc"],
 mechanism=[("task flow, alignment, output", "psi/legacy/bucket_psi.cc Run, ProduceOutput, GenerateResult"), ("rows by position", "psi/legacy/bucket_psi.cc FilterFileByIndices (both)"), ("positions of common items", "psi/legacy/bucket_psi.cc GetResultIndices"), ("digest and duplicates", "psi/utils/csv_checker.cc"), ("progress thread", "psi/legacy/bucket_psi.cc ProgressLoop")],
 design="The whole of BucketPsi::Run is executed for all parties on threads over the link model and an in-memory file system; table contents, orders, repetitions, receiver, broadcast and sorting are symbolic choices over an alphabet of keys that run together, and output files are compared with the rows of the common keys. Rows of FilterFileByIndices, items of GetResultIndices and keys of CsvChecker have symbolic bytes. h_progress explores deviating schedules of the progress thread, with timed waits that expire or not.",
 note="Bounded symbolic execution; sort and uniq are stand-ins that interpret the command lines; DP-PSI, whose result is random by design, is left out; ECDH_PSI_2PC is not registered in this tree and is refused.")
