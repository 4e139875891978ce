_p15 = {"VERIF": VERIF, "REPO": REPO}
exec(open(VERIF + "/props/P15/spec.py").read(), _p15)
_T = {"threads": True}
_R = {"hash_table": 1, "par_chunk": 1}
_K = {"hash_table": 1, "spin_yield": 1}
_S = _p15["SPEC"]
SPEC = {
 "sources": _S["sources"] + ["psi/legacy/bucket_psi.cc", "psi/utils/csv_checker.cc"],
 "flags": _S["flags"], "support": _S["support"] + [VERIF + "/shims/sys_sort.cpp"], "protos": _S["protos"], "prepare": _S["prepare"],
 "entries": [
  dict(fn="h_run", id="h_two", params=dict(_R, type=5, letters=2), thorough={"letters": 3}, sweep={"quick": {"recv": [0, 1]}, "thorough": {"recv": [0, 1], "sort": [0, 1], "bc": [0, 1]}},
       what="ECDH between two tables: every pair of key lists over two keys, orders, broadcast, sorting", **_T),
  dict(fn="h_run", id="h_runon", params=dict(_R, type=5, letters=3, recv=0, bc=1), sweep={"quick": {"sort": [0, 1]}, "thorough": {"sort": [0, 1], "rand_salt": [0, 1]}}, what="keys that run together", **_T),
  dict(fn="h_run", id="h_cols", params=dict(_R, type=5, letters=2, cols=2, recv=1, bc=1, sort=1, pre=1), thorough={"letters": 3}, what="two key columns", **_T),
  dict(fn="h_run", id="h_dups", params=dict(_R, type=5, letters=2, dups=1, recv=1), sweep={"quick": {"sort": [0], "bc": [0]}, "thorough": {"sort": [0, 1], "bc": [0, 1]}}, what="tables that repeat a key, with the check for it", **_T),
  dict(fn="h_run", id="h_buckets", params=dict(_R, type=5, letters=3, bucket=1, hash_mode=1, recv=1, bc=0, sort=0), sweep={"quick": {"pre": [0]}, "thorough": {"pre": [0, 1], "bc": [0, 1], "sort": [0, 1]}}, what="several buckets", **_T),
  dict(fn="h_run", id="h_three", params=dict(_R, type=4, n=3, letters=2, sort=0, recv=2), thorough={"sort": 1}, sweep={"quick": {"bc": [0]}, "thorough": {"bc": [0, 1], "type": [4, 5]}}, what="three tables", **_T),
  dict(fn="h_run", id="h_kkrt", params=dict(_K, type=2, letters=2, sort=0), thorough={"sort": -1}, sweep={"quick": {"bc": [1], "recv": [0]}, "thorough": {"bc": [0, 1], "recv": [0, 1]}}, what="KKRT between two tables", **_T),
  dict(fn="h_run", id="h_progress", params=dict(_R, type=5, letters=1, bc=1, sort=0, recv=0, progress=1), deviate=True, preempt={"quick": 1, "thorough": 2}, sweep={"quick": {"timeouts": [0, 1]}, "thorough": {"timeouts": [0, 1, 2]}}, what="progress shown by a thread of its own, other schedules", **_T),
  dict(fn="h_filter", params={}, what="rows picked by position"),
  dict(fn="h_indices", params={}, what="positions of the common items"),
  dict(fn="h_digest", params=dict(hash_table=1), what="the digest of a table's keys", **_T),
  dict(fn="h_refuse", params=dict(hash_table=1), what="tables that are refused", **_T),
 ],
 "bounds": "two tables with up to 3 keys, three with up to 2; one or two key columns; one to three buckets; filters: up to 4 rows of 2 bytes; digests: up to 3 rows of up to 2 letters; one deviation from the round-robin schedule",
 "assumptions": ["ideal group, hash, OT", "sort and uniq as stand-ins for the commands", "keys without line breaks, quotes and commas"],
}
