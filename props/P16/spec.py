import os as _os, re as _re
_p = {"VERIF": VERIF, "REPO": REPO}
exec(open(VERIF + "/props/P15/spec.py").read(), _p)
_T = {"threads": True}
def _chunk(b):
    """Vectors go out in chunks of 100000 elements: 5 here, by an overlay header written from the current one."""
    s = open(_os.path.join(REPO, "psi/algorithm/rr22/rr22_utils.h")).read()
    t = _re.sub(r"(kSendChunkSize\s*=\s*)\d+", r"\g<1>5", s)
    if t != s:
        _os.makedirs(b.gen + "/psi/algorithm/rr22", exist_ok=True)
        open(b.gen + "/psi/algorithm/rr22/rr22_utils.h", "w").write(t)
_A = {"quick": {"avx2": [0, 1]}, "thorough": {"avx2": [0, 1]}}
_O = dict(cipher_table=1, hash_table=1, delta_sym=0)
SPEC = {
 "sources": ["psi/algorithm/rr22/okvs/" + x for x in ("baxos.cc", "paxos.cc", "paxos_hash.cc", "dense_mtx.cc", "galois128.cc", "simple_index.cc", "aes_crhash.cc", "paxos_utils.cc")] +
            ["psi/algorithm/rr22/rr22_oprf.cc", "psi/algorithm/rr22/davis_meyer_hash.cc"],
 "flags": _p["SPEC"]["flags"],
 "support": [],
 "protos": _p["SPEC"]["protos"],
 "prepare": _chunk,
 "entries": [
  dict(fn="h_galois", params=dict(stride=8, avx2=1), sweep={"quick": {"at": [7]}, "thorough": {"at": list(range(8))}}, what="products of any element and a power of x"),
  dict(fn="h_galois", id="h_galois_few", params=dict(few=8, avx2=1, places=6), thorough=dict(places=0), sweep={"quick": {"few": [8]}, "thorough": {"few": [4, 8]}}, what="products of elements with a few free bits each"),
  dict(fn="h_galois", id="h_galois_portable", params=dict(stride=8, avx2=0), sweep={"quick": {"at": [7]}, "thorough": {"at": [0, 1, 7]}}, what="the same by the portable code"),
  dict(fn="h_power", params={}, sweep=_A, what="powers and inverses"),
  dict(fn="h_invert", params=dict(n=3), sweep={"quick": {"n": [1, 2, 3]}, "thorough": {"n": [1, 2, 3, 4]}}, what="inverses of all bit matrices"),
  dict(fn="h_matrix", params={}, what="products, sums, copies, rows of matrices"),
  dict(fn="h_rows", params={}, sweep={"quick": {"avx2": [0, 1], "weight": [3, 4], "sparse": [5]}, "thorough": {"avx2": [0, 1], "weight": [2, 3, 4, 5], "sparse": [5, 8, 40]}}, what="positions"),
  dict(fn="h_hash", params={}, sweep=_A, what="hashes of any number of values"),
  dict(fn="h_paxos", params=dict(n=4), sweep={"quick": {"index": [0, 2]}, "thorough": {"index": [0, 1, 2, 3], "weight": [3, 4], "n": [6]}}, what="single store"),
  dict(fn="h_paxos", id="h_paxos_gap", params=dict(n=4, tight=3), sweep={"quick": {"index": [2]}, "thorough": {"index": [0, 2], "n": [6]}}, what="single store, so small that keys meet"),
  dict(fn="h_baxos", params={}, sweep={"quick": {"threads": [0, 2], "dthreads": [1]}, "thorough": {"threads": [0, 1, 2, 3], "dthreads": [0, 2]}}, what="binned store", **_T),
  dict(fn="h_baxos", id="h_baxos_large", params=dict(n=140, bin=70, more=0), sweep={"quick": {"threads": [1, 4]}, "thorough": {"threads": [1, 2, 3, 4, 5], "n": [40, 140, 200]}}, what="binned store with whole groups of 32 keys", **_T),
  dict(fn="h_baxos", id="h_baxos_query", params=dict(threads=1, more=1200, avx2=1), max_steps=80000000, sweep={"quick": {"dthreads": [1]}, "thorough": {"dthreads": [0, 2]}}, what="binned store, more queries than are kept per bin", **_T),
  dict(fn="h_baxos", id="h_baxos_repeat", params=dict(threads=1, same=1, avx2=1, n=5), max_steps=80000000, sweep={"quick": {"more": [530]}, "thorough": {"more": [512, 530, 545]}}, what="binned store, one key asked for more often than a bin keeps", **_T),
  dict(fn="h_oprf", params=dict(_O, sender=5, receiver=5, offsets=3), thorough=dict(sender=12, receiver=9, offsets=4), sweep={"quick": {"low": [0, 1], "malicious": [0]}, "thorough": {"low": [0, 1], "avx2": [0, 1], "threads": [0, 2]}}, what="both parties, sizes and overlap free", **_T),
  dict(fn="h_oprf", id="h_oprf_mal", params=dict(_O, sender=5, receiver=5, offsets=3, malicious=1, avx2=1), thorough=dict(sender=11, receiver=9, offsets=4), sweep={"quick": {"bin": [2]}, "thorough": {"bin": [2, 100], "avx2": [0, 1]}}, what="the same, malicious variant", **_T),
  dict(fn="h_oprf", id="h_oprf_delta", params=dict(_O, sender=1, receiver=1, smin=3, rmin=3, offsets=3, delta_sym=1), sweep={"quick": {"low": [0, 1]}, "thorough": {"low": [0, 1], "avx2": [0, 1], "smin": [3, 6]}}, what="both parties, marked values of the sender's correlation", **_T),
  dict(fn="h_pieces", params={}, what="vectors in pieces"),
  dict(fn="h_commit", params=dict(_O, delta_sym=0), what="a commitment that is opened otherwise", **_T),
 ],
 "bounds": "quick: matrices up to 3x3 (all bits) and 130 rows; field products of any 32-bit piece with every eighth power of x (all powers in the thorough tier) and of 8-bit pieces; stores of up to 5 keys, 9 in several bins, decoded among 40; both parties with 1 to 5 items each; vectors of 3 elements in pieces",
 "assumptions": ["ideal vector OLE, cipher and hash", "keys and hash values from fixed pseudo-random pools (values free)", "vectors go out in chunks of 5 instead of 100000 elements"],
}
