_p5, _p9 = {}, {}
exec(open(VERIF + "/props/P05/spec.py").read(), {"VERIF": VERIF}, _p5)
exec(open(VERIF + "/props/P09/spec.py").read(), {"VERIF": VERIF}, _p9)
_T = {"threads": True}
_K = {"hash_table": 1, "spin_yield": 1}
_R = {"hash_table": 1, "par_chunk": 1}
_own = ["psi/algorithm/psi_operator.cc", "psi/algorithm/kkrt/kkrt_operator.cc", "psi/algorithm/rr22/rr22_operator.cc", "psi/algorithm/ecdh/ecdh_operator.cc"]
SPEC = {
 "sources": _own + _p5["SPEC"]["sources"] +
            [s for s in _p9["SPEC"]["sources"] if ("rr22_" in s or "kkrt_psi" in s or "rr22/common" in s or "cuckoo" in s or "kkrt/common" in s) and s not in _p5["SPEC"]["sources"]],
 "flags": _p9["SPEC"]["flags"],
 "support": _p5["SPEC"]["support"] + [VERIF + "/shims/rr22_ideal_oprf.cpp"],
 "protos": _p5["SPEC"]["protos"],
 "entries": [
  dict(fn="h_kkrt", params=dict(_K, nb=1, letters=2),
       thorough={"letters": 2, "counts": 2}, sweep={"quick": {"rand_salt": [0]}, "thorough": {"nb": [1, 2], "rand_salt": [0, 1]}},
       what="KkrtOperator: which items each side has and how often, the order at the sender, receiver and broadcast", **_T),
  dict(fn="h_kkrt", id="h_kkrt/buckets", params=dict(_K, nb=2, letters=1, counts=1), what="KkrtOperator over two buckets", **_T),
  dict(fn="h_rr22", params=dict(_R, nb=1, letters=2), sweep={"quick": {"rand_salt": [0]}, "thorough": {"low_comm": [0, 1], "rand_salt": [0, 1]}},
       what="Rr22Operator: the same", **_T),
  dict(fn="h_rr22", id="h_rr22/buckets", params=dict(_R, nb=3, letters=1, counts=1), thorough={"counts": 1},
       sweep={"quick": {"pipeline": [1, 0]}, "thorough": {"pipeline": [1, 0], "low_comm": [0, 1]}},
       what="Rr22Operator over three buckets, pipelined or on parallel threads", **_T),
  dict(fn="h_ecdh", params=dict(_R, letters=2), sweep={"quick": {"rand_salt": [0]}, "thorough": {"batches": [3], "rand_salt": [0, 1]}},
       what="EcdhOperator: the same, which party gets the result, batch size; in-memory point stores", **_T),
  dict(fn="h_ecdh", id="h_ecdh/disk", params=dict(_R, letters=1, counts=2, batches=1, bins=2), thorough={"letters": 2},
       what="EcdhOperator over on-disk point stores", **_T),
  dict(fn="h_parallel", params=dict(_R, nb=3), sweep={"quick": {"level": [2, 6]}, "thorough": {"level": [1, 2, 3], "nb": [3, 4]}},
       what="Rr22Runner::ParallelRun from any first bucket", **_T),
 ],
 "bounds": "two letters per bucket, up to two repetitions, up to 3 buckets; quick one random seed",
 "assumptions": ["ideal group, ideal OPRF / OT, ideal hash (distinct inputs never collide)"],
}
