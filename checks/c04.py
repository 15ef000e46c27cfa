"""C04 parallel_for, continue strategy."""
import conc, crowd, pfprogs


def run(c):
    exe = conc.build(c)
    c.model_check_many([("ParallelFor", "ParallelFor_c1.cfg"), ("ParallelFor", "ParallelFor_c2.cfg")] + ([("ParallelFor", "ParallelFor_c3.cfg")] if c.thorough else []) +
                       [("ParallelFor", "ParallelFor_F_%s.cfg" % f, "Invariant Refines is violated") for f in ("counter_index", "no_join")])
    conc.judge(c, exe, pfprogs.programs(c, [0]), "parallel_for", "ParForTrace", "ParForTrace.cfg", ("js", "je", "pg", "rt", "er"), limit=200000 if c.thorough else 25000)
    crowd.loops(c, c.build("crowd.cc"), 0)   # many jobs, many workers
    c.assumptions += ["1..4 workers (hardware_concurrency() >= 1); sequentially consistent interleavings of synchronisation operations"]
