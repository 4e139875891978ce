PROP = dict(
 title="Messages survive the wire and every party agrees after a collective",
 statement="Sizes, index lists, item lists with repetition counts and data batches come back from the wire as they were put on it; after gathering sizes or flags every party knows every party's value by rank; sharing a result gives every party the owner's items and counts in order, and is refused by all when several parties have one; nobody leaves a synchronised step before everybody's work is done, and a failure of one stops all; the link of a pair joins exactly that pair; all parties compute the same number of buckets, enough for the largest and none if one is empty; and a bucket's result becomes, for each entitled party, exactly its own common rows with the other party's counts.",
 over=["message contents", "number of parties", "owners", "schedules"],
 text="all numbers, counts and short contents, all owners and flags among 2 and 3 parties, all orders in which parties finish",
 why="Each test exchanges one fixed message between fixed parties; the zero rank, the empty side, counts that need all 32 bits, several owners or a slow party are not sampled.",
 files=["psi/utils/serialize.h", "psi/utils/communication.h", "psi/utils/communication.cc", "psi/utils/sync.h", "psi/utils/sync.cc", "psi/utils/bucket.cc"],
 mechanism=[("field by field serialization", "psi/utils/serialize.h, psi/utils/communication.h PsiDataBatch"), ("choosing the party that shares", "psi/utils/sync.cc BroadcastResult"), ("rounds of flags until all are done", "psi/utils/sync.h SyncWait"), ("bucket number and bucket results", "psi/utils/bucket.cc NegotiateBucketNum, HandleBucketResultBySender, HandleBucketResultByReceiver, PrepareBucketData")],
 design="Round trips execute with symbolic numbers and bytes and symbolic presence of counts. Collectives run with one thread per party over the modelled link, values symbolic, owners and failing party symbolic choices; SyncWait also under schedules that deviate from round robin and with timed waits that may give up. Index files are read back with the repository's reader.",
 note="Bounded symbolic execution; protobuf is a stand-in.")
