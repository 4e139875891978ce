PROP = dict(
 title="Input tables become keys, groups and output rows without loss or shift",
 statement="Every row of a CSV input table is read exactly once and in order, with its keys and labels in the order asked for, whatever the batch sizes, quoting, empty lines and line ends; sorting follows the given key columns and loses no row; the groups of equal keys (first row, number of repetitions, total) are exact, survive being reopened, and every key is provided once with its count; applying any intersection with the peer's counts writes exactly the rows in it (each as often as the peer's count asks for) and the other rows once to the rest, with right counts; digests of two tables' keys are equal only for equal key sequences; and shuffled or in-memory batches give every item once together with its own place and repetition count.",
 over=["table contents", "quoting, empty lines and line ends", "batch and record batch sizes", "key columns and their order", "intersections and peer counts"],
 text="tables of a few rows with symbolic cells, every choice of columns, batch border, quoting, empty line and line end, every intersection with peer counts",
 why="Tests read a few plain tables with one batch size: borders of batches inside record batches, groups that end the table, empty lines, carriage returns, quotes inside keys and peer counts for the last key are not exercised.",
 files=["psi/utils/arrow_csv_batch_provider.cc", "psi/utils/arrow_helper.cc", "psi/utils/batch_provider_impl.cc", "psi/utils/index_store.cc", "psi/utils/key.cc", "psi/utils/table_utils.cc"],
 mechanism=[("reading rows", "psi/utils/arrow_csv_batch_provider.cc ReadNext, ReadNextLabeledBatch"), ("sorting", "psi/utils/key.cc MultiKeySort"), ("groups of equal keys", "psi/utils/table_utils.cc KeyInfo::Make, SortedTable, UniqueKeyTable"), ("rows of an intersection", "psi/utils/table_utils.cc KeyInfo::ApplyPeerDupCnt, ResultDumper"), ("shuffled batches", "psi/utils/batch_provider_impl.cc SimpleShuffledBatchProvider"), ("index files", "psi/utils/index_store.cc")],
 design="Tables with symbolic cells are written to the in-memory file system with the place of an empty line, quoting, line ends, batch size and Arrow's record batch size chosen freely, read by the real providers, sorted and grouped by the real key info code, and intersected with any set of groups and peer counts; rows, keys, places, counts and output files are compared with a direct computation on the table. Two entries demonstrate the known findings about commas inside keys.",
 note="Bounded symbolic execution; CSV parser, sort and file system are models of the library behaviour.")
