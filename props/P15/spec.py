import os as _os, re as _re
_p12 = {}
exec(open(VERIF + "/props/P12/spec.py").read(), {"VERIF": VERIF}, _p12)
_T = {"threads": True}
_R = {"hash_table": 1, "par_chunk": 1}
_K = {"hash_table": 1, "spin_yield": 1}
def _batch(b):
    """The batch size of the multi-party code (4096) set to 2: an overlay header written from the current one."""
    s = open(_os.path.join(REPO, "psi/utils/communication.h")).read()
    t = _re.sub(r"(kEcdhPsiBatchSize\s*=\s*)\d+", r"\g<1>2", s)
    if t != s:
        _os.makedirs(b.gen + "/psi/utils", exist_ok=True)
        open(b.gen + "/psi/utils/communication.h", "w").write(t)
_leg = ["psi/legacy/" + x for x in ("base_operator.cc", "ecdh_3party_psi.cc", "kkrt_2party_psi.cc", "memory_psi.cc", "nparty_psi.cc")]
_nty = ["psi/algorithm/nty/nty_mp_psi.cc", "psi/algorithm/nty/server_aided_psi.cc"] + ["psi/algorithm/rr22/okvs/" + x for x in
        ("baxos.cc", "paxos.cc", "paxos_hash.cc", "dense_mtx.cc", "galois128.cc", "simple_index.cc", "aes_crhash.cc", "paxos_utils.cc")]
SPEC = {
 "sources": _leg + ["psi/algorithm/ecdh/ecdh_3pc_psi.cc"] + _nty +
            [s for s in _p12["SPEC"]["sources"] if "operator" not in s and "rr22_psi" not in s and "rr22/common" not in s],
 "flags": _p12["SPEC"]["flags"] + ["-msse4.2", "-mpclmul"],
 "support": [s for s in _p12["SPEC"]["support"] if "ideal_oprf" not in s],
 "protos": _p12["SPEC"]["protos"],
 "prepare": _batch,
 "entries": [
  dict(fn="h_memory", id="h_3pc", params=dict(_R, type=4, n=3, letters=3), thorough={}, sweep={"quick": {"recv": [0, 1, 2], "bc": [0, 1]}, "thorough": {"recv": [0, 1, 2], "rand_salt": [0, 1]}},
       what="ECDH for three parties: every triple of sets over three items, orders, receiver, broadcast", **_T),
  dict(fn="h_memory", id="h_ecdh_n", params=dict(_R, type=5, n=3, letters=2), thorough={"letters": 3}, sweep={"quick": {"n": [2, 3]}, "thorough": {"n": [2, 3]}}, what="ECDH for two and three parties, run pairwise", **_T),
  dict(fn="h_memory", id="h_ecdh_4", params=dict(_R, type=5, n=4, letters=2, orders=0), sweep={"quick": {"recv": [0, 3], "bc": [0]}, "thorough": {"recv": [0, 1, 2, 3], "orders": [0, 1]}}, what="four parties (two levels)", **_T),
  dict(fn="h_memory", id="h_ecdh_5", params=dict(_R, type=5, n=5, letters=1, orders=0), thorough={"letters": 2, "bc": 0}, sweep={"quick": {"bc": [0, 1]}, "thorough": {"recv": [0, 1, 2, 3, 4]}}, what="five parties (an odd one out at each level)", **_T),
  dict(fn="h_memory", id="h_kkrt_n", params=dict(_K, type=6, n=3, letters=2), thorough={"letters": 2}, sweep={"quick": {"n": [2, 3]}, "thorough": {"n": [2, 3, 4], "rand_salt": [0, 1]}}, what="KKRT for n parties", **_T),
  dict(fn="h_memory", id="h_kkrt_2", params=dict(_K, type=2, n=2, letters=2), thorough={"letters": 3}, what="KKRT for two parties", **_T),
  dict(fn="h_memory", id="h_sched", params=dict(_R, type=4, n=3, letters=1, bc=1), deviate=True, preempt={"quick": 1, "thorough": 2}, sweep={"quick": {"recv": [1], "type": [4]}, "thorough": {"recv": [0, 1, 2], "type": [4, 5]}},
       what="other schedules of the parties' threads", **_T),
  dict(fn="h_view", params=dict(_R, n=3, letters=2), sweep={"quick": {"type": [4, 5], "recv": [1]}, "thorough": {"type": [4, 5], "recv": [0, 1, 2]}}, what="messages of two runs with renamed items", **_T),
  dict(fn="h_refuse", params=dict(_R), what="tasks that are refused"),
  dict(fn="h_nty", params=dict(_R, n=3, letters=2), thorough={"letters": 3}, sweep={"quick": {"threads": [1]}, "thorough": {"threads": [1, 2], "rand_salt": [0, 1]}}, what="the server-aided protocol, any roles, sets possibly empty", **_T),
  dict(fn="h_nty", id="h_nty_4", params={**_R, "n": 4, "letters": 2, "orders": 0}, sweep={"quick": {"fixed roles": [1]}, "thorough": {"fixed roles": [0]}}, what="the server-aided protocol with four parties", **_T),
  dict(fn="h_nty", id="h_nty_5", params={**_R, "n": 5, "letters": 2, "orders": 0, "fixed roles": 1}, tier="thorough", what="the server-aided protocol with five parties", **_T),
 ],
 "bounds": "quick: three parties with up to 3 items, two to four with up to 2, five with 1 (ECDH); KKRT two and three parties with 2 items; NTY three and four parties with 2 items; batches of 2; one deviation from the round-robin schedule",
 "assumptions": ["ideal group, hash, block cipher, OT", "distinct items per party", "the batch size constant is 2 instead of 4096"],
}
