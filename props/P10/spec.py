_p9 = {}
exec(open(VERIF + "/props/P09/spec.py").read(), {"VERIF": VERIF}, _p9)
_T = {"threads": True}
_C = {"hash_table": 1, "hash_mode": 1, "bucket": 2, "nr": 3, "ns": 3, "free": 0}
_SW = {"quick": {"party": [0, 1]}, "thorough": {"party": [0, 1]}}
_K, _R = dict(_C, kkrt=1, spin_yield=1), dict(_C, kkrt=0)
_W = "two whole tasks with recovery, one party %s at any %s, then both run again on the same folders; the tables and reports must be the join"
def _e(id, p, disk, thorough, **kw):
    return dict(fn="h_resume", id=id, params=dict(p, disk=disk), sweep=_SW, thorough=thorough,
                what=_W % (("crashes", "change it makes on disk") if disk else ("loses its link", "message it sends")), **_T, **kw)
SPEC = {
 "sources": _p9["SPEC"]["sources"], "support": _p9["SPEC"]["support"], "protos": _p9["SPEC"]["protos"], "flags": _p9["SPEC"]["flags"],
 "entries": [
  _e("h_kkrt_link", _K, 0, {"free": 1}), _e("h_kkrt_crash", _K, 1, {"free": 1}),
  _e("h_rr22_link", _R, 0, {"free": 1}), _e("h_rr22_crash", _R, 1, {"free": 1}),
  _e("h_kkrt_one_sided", dict(_K, bc=0), 1, {"free": 1}), _e("h_rr22_one_sided", dict(_R, bc=0), 1, {"free": 1}),
  _e("h_kkrt_twice", dict(_K, times=2), 1, {}, tier="thorough"), _e("h_rr22_twice", dict(_R, times=2), 1, {}, tier="thorough"),
  _e("h_kkrt_link_twice", dict(_K, times=2), 0, {}, tier="thorough"), _e("h_rr22_link_twice", dict(_R, times=2), 0, {}, tier="thorough"),
  _e("h_rr22_left", dict(_R, jt=2, nr=2, ns=4), 1, {}, tier="thorough"), _e("h_kkrt_left", dict(_K, jt=2, nr=4, ns=2), 1, {}, tier="thorough"),
 ],
 "bounds": "Three rows per party (2 and 4 in two thorough entries), one-column keys, buckets of about two items; quick: fixed tables with repeated and common keys, one interruption of either party at every message or every change on disk; thorough: the first key of either side symbolic (any value), or two interruptions in a row, one of them possibly during the resumed run. Concrete pseudo-random digests per distinct key, one schedule (round robin at blocking points).",
 "assumptions": [
  "The oblivious PRFs are ideal; OT and VOLE preparation is repeated by the resumed run.",
  "A crash keeps exactly the writes already made (no reordering by the file system, no half-written line); a lost link fails the sends of one party from then on and the receives of the other.",
  "Both parties are started again with the same configuration, as the code demands.",
 ],
}
