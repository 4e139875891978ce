import os as _os, re as _re
def _batch(b):
    """The batch size of key providers (65536) set to 2: an overlay header written from the current one."""
    s = open(_os.path.join(REPO, "psi/utils/table_utils.h")).read()
    t = _re.sub(r"(kBatchSize\s*=\s*)[^;]+;", r"\g<1>2;", s)
    if t != s:
        t = _re.sub(r'#include "(\w+\.(pb\.)?h)"', r'#include "psi/utils/\1"', t)
        _os.makedirs(b.gen + "/psi/utils", exist_ok=True)
        open(b.gen + "/psi/utils/table_utils.h", "w").write(t)
_T = {"threads": True}
SPEC = {
 "sources": ["psi/utils/" + x + ".cc" for x in ("arrow_csv_batch_provider", "arrow_helper", "batch_provider_impl", "index_store", "io", "key", "table_utils", "pb_helper")],
 "support": [VERIF + "/shims/sys_sort.cpp"],
 "protos": ["psi/utils/table_utils.proto", "psi/utils/serializable.proto"],
 "prepare": _batch,
 "entries": [
  dict(fn="h_csv", params=dict(n=4), thorough=dict(n=5, batch=4, block=4), what="any table of up to 3 rows in batches, keys and labels in any order", **_T),
  dict(fn="h_csv", id="h_csv_text", params=dict(n=2, quoted=1, blanks=1, block=2, batch=2), thorough=dict(n=3), what="the same with quoted values, empty lines and both line ends", **_T),
  dict(fn="h_sort", params=dict(n=3), sweep={"quick": {"numeric": [0]}, "thorough": {"longer": [0, 1]}}, what="sorting by one or two keys", **_T),
  dict(fn="h_sort", id="h_sort_num", params=dict(n=2, numeric=1), thorough=dict(n=3), what="sorting by number", **_T),
  dict(fn="h_keyinfo", params=dict(n=3), thorough=dict(n=4), sweep={"quick": {"uniq": [0, 1]}, "thorough": {"uniq": [0, 1], "cols": [1, 2], "keylast": [0, 1]}}, what="groups of equal keys", **_T),
  dict(fn="h_keyinfo", id="h_keyinfo_blank", params=dict(n=2, blanks=1, block=1), thorough=dict(n=3), sweep={"quick": {"uniq": [0, 1]}, "thorough": {"uniq": [0, 1], "keylast": [0, 1]}}, what="the same with empty lines and both line ends", **_T),
  dict(fn="h_keyinfo", id="h_keyinfo_special", params=dict(n=2, special=1, block=1), what="keys with quotes inside", **_T),
  dict(fn="h_apply", params=dict(n=3), thorough=dict(n=4, files=1), sweep={"quick": {"uniq": [0, 1], "file": [0, 1]}, "thorough": {"uniq": [0, 1], "file": [0, 1], "block": [0, 1, 2]}}, what="rows of any intersection", **_T),
  dict(fn="h_apply", id="h_apply_blank", params=dict(n=2, blanks=1), thorough=dict(n=3), sweep={"quick": {"uniq": [0, 1]}, "thorough": {"uniq": [0, 1], "keylast": [0, 1]}}, what="the same with empty lines and both line ends", **_T),
  dict(fn="h_digest", params={}, sweep={"quick": {"uniq": [0, 1]}, "thorough": {"uniq": [0, 1], "cols": [1, 2]}}, what="digests of keys", **_T),
  dict(fn="h_commas", params={}, finding="commas-in-keys", what="key columns that run together", **_T),
  dict(fn="h_quoted", params={}, finding="quoted-commas", what="sorting tables with quoted commas", **_T),
  dict(fn="h_shuffled", params={}, thorough=dict(n=6), what="shuffled batches of any set with any counts", **_T),
  dict(fn="h_memory", params={}, what="items held in memory", **_T),
 ],
 "bounds": "tables of up to 4 rows and 3 columns, batches and record batches of up to 3 rows, 5 shuffled items",
 "assumptions": ["CSV reading, sorting and the file system are small models of the library behaviour; the CSV model follows Arrow's rules for quotes, empty lines and line ends"],
}
