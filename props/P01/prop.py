PROP = dict(
 title="Reported job progress is the exact weighted progress of its phases",
 statement="At any moment the progress reported for a job equals the weighted average, rounded down, of the progress of its phases (each capped at 100), together with exact counts of configured, finished and running phases; it stays between 0 and 100, reaches 100 when every configured phase is done and never moves backwards while phases only advance. This also holds for nested phases and while concurrent workers update phases and another thread reads.",
 over=["inputs", "histories", "schedules"],
 text="all weights, all sequences of phase creation, update and completion, and all interleavings of concurrent updaters and readers",
 why="The two stable tests sample one weight vector and one thread; they never mix updates out of range, nesting, completion order and concurrency.",
 files=["psi/utils/progress.cc", "psi/utils/progress.h"],
 mechanism=[("weighted sum over sub-progresses", "psi/utils/progress.cc Progress::Get"), ("capping and completion", "psi/utils/progress.cc Progress::Update, Done"), ("lock around the phase list", "psi/utils/progress.cc")],
 design="Oracle: a reference that recomputes weighted sum and counters from the updates issued. Threads are real std::thread calls scheduled by the engine, which forks at every lock and atomic operation up to the preemption bound.",
 note="Bounded: every value inside the bounds is decided by the solver; says nothing about more phases, longer histories or more preemptions.")
