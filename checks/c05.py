"""C05 parallel_for, quit strategy."""
import conc, crowd, pfprogs


def run(c):
    exe = conc.build(c)
    c.model_check_many([("ParallelFor", "ParallelFor_q1.cfg"), ("ParallelFor", "ParallelFor_q2.cfg")] + ([("ParallelFor", "ParallelFor_q3.cfg")] if c.thorough else []) +
                       [("ParallelFor", "ParallelFor_F_%s.cfg" % f, "Invariant Refines is violated") for f in ("no_quit_set", "no_quit_check", "shared_local")])
    conc.judge(c, exe, pfprogs.programs(c, [1, 2]), "parallel_for", "ParForTrace", "ParForTrace.cfg", ("js", "je", "rt", "th"), limit=200000 if c.thorough else 25000)
    crowd.loops(c, c.build("crowd.cc"), 1)   # many jobs, many workers
    c.assumptions += ["1..4 workers (hardware_concurrency() >= 1); a failure counts as recorded once the failing worker's thread has ended"]
