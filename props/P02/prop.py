PROP = dict(
 title="Lattice PIR returns exactly the queried row",
 statement="For every database and every row number, the query the client builds addresses exactly the plaintext slot that holds this row, and decoding a correct answer for that slot returns exactly that row's bytes. The layout the server evaluates on holds each plaintext at the slot its number addresses, whichever of the two ways it was built.",
 over=["inputs", "configurations"],
 text="all database contents, row counts, row sizes (smaller than, equal to and larger than a plaintext) and indices",
 why="The tests need the SEAL and yacl libraries (not built here) and sample random databases of a few shapes and a handful of indices.",
 files=["psi/algorithm/spiral/spiral_client.cc", "psi/algorithm/spiral/spiral_server.cc", "psi/algorithm/spiral/params.cc", "psi/algorithm/spiral/util.cc", "psi/algorithm/pir_interface/pir_db.cc"],
 mechanism=[("query generation", "psi/algorithm/spiral/spiral_client.cc GenQuery/GenQueryInternal"), ("database packing", "psi/algorithm/spiral/spiral_server.cc GenerateFromRawData, PtDbsToReorientedDbs"), ("decoding", "psi/algorithm/spiral/spiral_client.cc DecodeResponse"), ("dimension choice", "psi/algorithm/spiral/params.cc UpdateByDatabaseInfo")],
 design="The harness decrypts the real query with the client's own key, reads off which slot it selects, feeds a noiseless answer holding the server's real packed plaintext of that slot to the real decoder and compares with the database row (symbolic bytes). Database shapes, ring sizes and digit counts are swept. The server's homomorphic evaluation (expansion, folding) is not encoded: it multiplies symbolic ring elements throughout.",
 note="Bounded symbolic execution; the homomorphic evaluation itself is outside.")
