PROP = dict(
 title="RR22's OPRF and key-value store give equal items equal values only",
 statement="In the RR22 protocol (fast and low-communication mode, semi-honest and malicious variant, any set sizes, bin sizes and thread counts) the two parties' OPRF values are equal exactly for equal items; the key-value store below it (paxos, single or in bins) decodes every key to the value it was given, wherever the key stands in the query and whatever its positions are, including keys that no sparse column can separate; positions of a key are distinct and in range; GF(2^128) arithmetic, bit-matrix operations and the fixed-key hashes are right for every input; and a party refuses vectors larger than announced or a commitment opened to something else.",
 over=["inputs", "sizes", "matrix contents", "hash values", "peer messages"],
 text="all sizes and overlaps of small sets, all small bit matrices, all field elements a window at a time, all row contents",
 why="Tests take a few fixed sizes with random keys: the gap (keys that meet in all columns), remainders of the 32-wide loops, single bits of field elements, peer messages of the wrong size and copies of matrices are hit rarely or never.",
 files=["psi/algorithm/rr22/rr22_oprf.cc", "psi/algorithm/rr22/rr22_utils.h", "psi/algorithm/rr22/davis_meyer_hash.cc", "psi/algorithm/rr22/okvs/baxos.cc", "psi/algorithm/rr22/okvs/paxos.cc", "psi/algorithm/rr22/okvs/paxos.h", "psi/algorithm/rr22/okvs/paxos_hash.cc", "psi/algorithm/rr22/okvs/paxos_utils.h", "psi/algorithm/rr22/okvs/px_vector.h", "psi/algorithm/rr22/okvs/dense_mtx.cc", "psi/algorithm/rr22/okvs/galois128.cc", "psi/algorithm/rr22/okvs/simple_index.cc", "psi/algorithm/rr22/okvs/aes_crhash.cc"],
 mechanism=[("both parties' values", "psi/algorithm/rr22/rr22_oprf.cc Send, Recv, Eval"), ("vectors in pieces", "psi/algorithm/rr22/rr22_utils.h SendChunked, RecvChunked"), ("store with bins", "psi/algorithm/rr22/okvs/baxos.cc"), ("store, gap", "psi/algorithm/rr22/okvs/paxos.cc Encode, Decode, GetFCInv"), ("field", "psi/algorithm/rr22/okvs/galois128.cc"), ("matrices", "psi/algorithm/rr22/okvs/dense_mtx.cc"), ("positions", "psi/algorithm/rr22/okvs/paxos_hash.cc BuildRow32")],
 design="Rr22OprfSender and Rr22OprfReceiver run as two threads over an ideal vector OLE and ideal cipher with sizes and overlaps free; Paxos and Baxos encode symbolic values under pools of keys, among them tiny stores whose keys meet, and every key is decoded at every place of a longer query; multiplications of field elements are compared with the schoolbook polynomial product, a window of bits at a time; matrices are compared with a bit-by-bit oracle for every content; peer messages of symbolic sizes go to the receiver of vectors.",
 note="Bounded symbolic execution; ideal vector OLE and cipher.")
