PROP = dict(
 title="A PSI task writes the join of the two tables",
 statement="When both parties run a whole ECDH PSI task on their CSV tables, each party that gets the result writes exactly the rows the chosen join (inner, left, right, full, difference) selects, under its own header; the two parties' files match line by line (every pair of rows with equal keys once, unmatched rows against padding where the join keeps them), and the reports give the true row and key counts. A party without the result writes no output and reports -1. This holds for every input, with any key columns, duplicated keys, declared-unique keys or the equal-digest shortcut, and for a later task over changed inputs.",
 over=["inputs", "configurations", "histories"],
 text="all small tables of both parties, overlaps and duplicate patterns, join types, left sides, result sharing, key columns and their order, the digest shortcut, and a second task on the same paths",
 why="The tests need libraries that are not built here and compare a few fixed tables; alignment of duplicated keys, key order and digest collisions only show on particular inputs.",
 files=["psi/interface.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc", "psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/utils/key.cc", "psi/utils/index_store.cc", "psi/utils/arrow_csv_batch_provider.cc"],
 mechanism=[("task template", "psi/interface.cc AbstractPsiParty::Init, Finalize"), ("key groups and their counts", "psi/utils/table_utils.cc KeyInfo::Make"), ("rows for intersection indices", "psi/utils/table_utils.cc KeyInfo::ApplyPeerDupCnt"), ("output by join type", "psi/utils/join_processor.cc GenerateResult"), ("external sort", "psi/utils/key.cc MultiKeySort")],
 design="EcdhPsiReceiver::Run and EcdhPsiSender::Run execute symbolically side by side from input CSV files (symbolic key letters) to output CSV files in an in-memory file system; the `sort` pipeline is interpreted by a small shell stand-in. The written files are read back and compared, line pair by line pair, with the SQL join of the two inputs, and the reports with the counts.",
 note="Bounded symbolic execution of the whole task; ideal group; shell sort interpreted.")
