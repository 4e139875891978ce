SPEC = {
 "sources": ["psi/utils/progress.cc"],
 "flags": ["-I" + VERIF + "/shims/atomic"],
 "entries": [
  {"fn": "h_tree", "sweep": {"quick": {"n": [1, 2, 3]}, "thorough": {"n": [1, 2, 3, 4]}},
   "what": "percentage, totals, finished and running counts of a parent over n phases with symbolic weights and updates"},
  {"fn": "h_nested", "what": "the same over a phase that itself has two weighted phases"},
  {"fn": "h_announced", "what": "jobs of up to three equally weighted phases, some not started, some made of phases of their own"},
  {"fn": "h_history", "quick": {"k": 4}, "thorough": {"k": 6},
   "what": "every sequence of k operations (next phase, update, done) on a weighted job: value against the reference, never backwards, 100 when all phases are done"},
  {"fn": "h_threads", "preempt": {"quick": 2, "thorough": 3},
   "what": "two workers and a reader, every schedule with at most that many preemptions at atomic operations and locks"},
 ],
 "bounds": "up to 3 (quick) or 4 (thorough) phases, every weight 0..3 for one or two phases and fixed tables of weights (sums up to about 71000) for more, symbolic percentages 0..255, histories of 4/6 operations, two worker threads and one reader with 2/3 preemptions",
 "assumptions": ["no more sub-phases are added than weights configured", "sequentially consistent atomics; preemption only at lock operations and atomic operations"],
}
